"""Writes properties.jsonl and MANIFEST.json from one list (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "harmonic_inference/"
TECH = "deterministic simulation with seeded fault injection"


def prop(ident, title, statement, over, text, why, files, mechanism, observe, note=None, na=None,
         state=()):
    return {
        "row": {
            "id": ident, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "observe_at": observe, "hook_needed": None,
            },
        },
        "note": note, "na": na,
    }


ALL = []


def add(*args, **kw):
    ALL.append(prop(*args, **kw))


CR = P + "data/corpus_reading.py"
add("P01", "Aggregation keeps every row with its own piece",
    "Aggregating a folder of per-piece tables lists every piece once and gives each row of the combined "
    "tables the id of the piece it came from, in original order and with unchanged cells. A piece whose "
    "table is missing or unreadable loses only that table and disturbs no other piece. The result does not "
    "depend on the order in which the file system lists files.",
    ["inputs", "schedules", "fault_sequences"],
    "all corpora (any mix of missing, damaged and unreadable tables, equal names in different folders), all "
    "directory orders, all placements of read errors and short reads",
    "No existing test runs the aggregation; a test sees one directory order of one healthy corpus.",
    [CR, "aggregate_corpus_data.py"],
    [("parallel lists of tables and of the ids they belong to", CR + ":aggregate_annotation_dfs")],
    ["the four written tables, read back with an independent TSV reader"],
    note="seeded sampling of corpora, listing orders and read faults; each run compares every row with a "
         "reference aggregation; trusts pandas' TSV quoting for plain cells")
add("P02", "An interrupted aggregation is never loaded as a corpus",
    "If aggregation is killed or fails to write at any point, loading its output folder afterwards either "
    "fails or yields exactly one complete earlier or new aggregation, never a mixture or a truncated one. "
    "A write failure is reported to the caller. An undisturbed re-run into the same folder gives the same "
    "tables as aggregating into an empty one.",
    ["crash_points", "fault_sequences", "histories"],
    "every crash point, torn write, full disk and write error during one or several attempts, over fresh and "
    "previously used output folders",
    "Tests never kill the process or fill the disk, and never aggregate twice into one folder.",
    [CR, "aggregate_corpus_data.py"],
    [("order of removal, table writes and final rename", CR + ":aggregate_annotation_dfs"),
     ("writes that report close errors", CR + ":write_dump")],
    ["return or error of the aggregation", "return or error of loading the folder", "the folder's files"],
    note="seeded sampling of crash and error points at the level of single write/open/rename calls; "
         "process-crash disk model (no power-cut reordering)")
add("P03", "Loading a corpus gives every piece exactly its own cleaned tables",
    "Loading a corpus yields, for every listed piece, exactly the measures (repeats removed), notes (stray "
    "rows dropped, end positions set, ties merged) and chords (stray and empty rows dropped, durations set) "
    "that this piece's own rows define. Nothing depends on which other pieces the corpus holds, on tables "
    "they lack, or on an earlier load. A table that exists but cannot be read makes loading fail; only an "
    "absent chord table means an unannotated corpus.",
    ["inputs", "fault_sequences", "histories"],
    "all corpora of pieces (single piece, missing tables, stray rows, pick-ups, repeats, tie chains, old "
    "column names), all read-fault placements, repeated loads",
    "The cleaning tests need a corpus that is not in the repository and sample one healthy corpus; none "
    "injects read errors or removes a piece's table.",
    [CR, P + "utils/corpus_utils.py", P + "data/corpus_constants.py"],
    [("cleaning steps over the joint tables of all pieces", CR + ":load_clean_corpus_dfs"),
     ("merges keyed by piece id", P + "utils/corpus_utils.py")],
    ["the four returned tables, or the error"],
    note="seeded sampling; the oracle is a plain-Python reference of the cleaning rules applied to one piece "
         "at a time; tie chains are generated unambiguous")
add("P09", "Every loaded piece is paired with its own id, labels and stored contents",
    "Loading pieces by any set and order of ids, or a single id, from tables or from MusicXML folders, gives "
    "each id the name, notes, measures and labels of that piece and of no other, whatever other pieces lack "
    "labels and however the folder is listed. Stored piece files are only used for the ids they were written "
    "for: a missing one falls back to the sources, a damaged or differently sized one is an error. A read "
    "error never yields a different piece.",
    ["inputs", "configurations", "fault_sequences", "histories"],
    "all corpora, id subsets and orders, label and stored-file availability, directory orders and read faults",
    "No existing test loads a list of pieces; pairing errors need pieces without labels or partial id lists.",
    [P + "utils/data_utils.py", P + "data/piece.py"],
    [("position pairing of ids, scores, label files and stored dicts", P + "utils/data_utils.py:load_pieces")],
    ["names and full contents of the returned pieces, or the error"],
    note="seeded sampling; oracle: the same piece loaded alone, and the generated source itself; music21 is "
         "real, torch is replaced by a stand-in that only has to be importable here")
add("P15", "Using a piece never changes what it says",
    "Whatever sequence of reading operations is applied to loaded pieces (features for any windows and "
    "ranges, queries, vectors, conversions, data sets, storing and restoring, rebuilding from the same "
    "tables with other options), each gives the answer it gives on a freshly loaded piece. This also holds "
    "after operations that were interrupted or ran out of memory half-way. A piece restored from its stored "
    "form is equal to the original.",
    ["histories", "fault_sequences", "inputs"],
    "all interleavings of read operations over one or more pieces, with failures at any step",
    "Tests call each operation once on a fresh object; caches and in-place changes show only across "
    "histories.",
    [P + "data/piece.py", P + "data/chord.py", P + "data/key.py", P + "data/note.py"],
    [("lazily filled duration cache", P + "data/piece.py:ScorePiece.get_duration_cache"),
     ("dict round trip", P + "data/piece.py:ScorePiece.to_dict, get_score_piece_from_dict")],
    ["answers of the operations; full contents of the piece afterwards"],
    note="seeded sampling of histories and of failure steps (line granularity); oracle: the same operation "
         "in a fork that has no history")

DS = P + "data/datasets.py"
add("P04", "Reading a data set item never depends on earlier reads",
    "Each item of a training data set is determined by the pieces it was made from and the current options "
    "(transposition range, reductions, padding), item by item. It does not change with how often, in which "
    "order, by how many interleaved workers or after which failed read it or any other item was read, and "
    "reading never alters the data set.",
    ["histories", "schedules", "fault_sequences", "inputs"],
    "all histories of reads, passes of a loader with any number of interleaved workers, option changes, "
    "copies, and allocation failures or interrupts at any step",
    "There is no test of the data set classes; mutation of shared arrays shows only on a second read.",
    [DS, P + "data/vector_decoding.py"],
    [("items built from shared arrays", DS + ":HarmonicDataset.__getitem__ and its overrides"),
     ("transposition and reduction of stored vectors", P + "data/vector_decoding.py")],
    ["inputs, targets, lengths and masks of every item read"],
    note="seeded sampling of histories and failure steps; oracle: items recomputed from the pieces by an "
         "independent reference; torch is a stand-in (seeded worker interleaving)")
add("P05", "A stored data set gives back exactly the items that were stored",
    "Saving a data set and loading it again, as a whole or piecewise when it does not fit into memory, gives "
    "every item the inputs, targets and lengths it had, whatever the chunk size, when memory runs out, "
    "whether the file is a copy of a copy, or what was read before. A read error is an error, not a shorter "
    "or different data set.",
    ["inputs", "configurations", "fault_sequences", "histories"],
    "all data sets of all five classes, chunk sizes, read orders, placements of memory and read failures",
    "No test stores a data set; the larger-than-memory path needs memory to run out at a chosen read.",
    [DS],
    [("padding to rectangular arrays and lengths to undo it", DS + ":HarmonicDataset.pad, to_h5"),
     ("chunked lazy reading after a memory error", DS + ":h5_to_dataset, HarmonicDataset.__getitem__")],
    ["items of the reloaded data set, or the error"],
    note="seeded sampling; h5py is a stand-in that stores the arrays faithfully; inputs compared in the "
         "stored half precision")
add("P06", "An interrupted data set save never passes for a good one",
    "If saving a data set is killed or fails at any point, loading the file afterwards is refused or yields, "
    "in full, the earlier version or the new one. A failure is reported to the caller, and a later "
    "undisturbed save succeeds.",
    ["crash_points", "fault_sequences", "histories"],
    "every crash point, torn write, full disk, write error and allocation failure during one or several saves, repeated "
    "by the same process or another",
    "Tests never interrupt a save.",
    [DS],
    [("temporary file and final rename", DS + ":HarmonicDataset.to_h5")],
    ["return or error of the save", "items of the reloaded file, or the error"],
    note="seeded sampling of failure points; files of a writer that died cannot be opened (h5py stand-in); "
         "process-crash disk model")
ICM = P + "models/initial_chord_models.py"
add("P14", "The initial-chord prior says what its training chords say, or fails to load",
    "A trained initial-chord model gives every chord of every key mode the smoothed relative frequency it "
    "has among the training pieces' first chords, as a proper distribution, whatever reduction and inversion "
    "options it is loaded with, in whatever order pieces were trained or evaluated. Killed or failed "
    "training never leaves a file that loads as anything but the complete earlier or new model.",
    ["crash_points", "fault_sequences", "inputs", "configurations"],
    "all sets of first chords, smoothing and loading options, and every crash, torn write and error during "
    "training or loading",
    "The existing test checks a few priors of a hand-written file; none interrupts training.",
    [ICM],
    [("counting, smoothing and dumping the prior", ICM + ":train_icm"),
     ("expansion of the prior to the requested chord set", ICM + ":SimpleInitialChordModel.__init__")],
    ["prior of every chord and key mode, evaluation result, or the error"],
    note="seeded sampling; oracle: independent counting; pieces are holders of one real chord and key")

DU = P + "utils/data_utils.py"
add("P07", "A split is an exact, repeatable partition of the usable pieces",
    "Splitting a corpus puts every usable piece into exactly one split, every split's ids, pieces and data "
    "set items belong together in the same order, and a piece that cannot be used is left out alone. The "
    "split depends only on the corpus, the proportions and the seed, not on listing order, random state or "
    "which data sets are requested, and its parts have the proportions asked for up to rounding.",
    ["inputs", "schedules", "fault_sequences", "configurations"],
    "all corpora with unusable pieces, proportions, seeds, directory orders and placements of read and "
    "allocation failures",
    "No test splits anything; misalignment needs an unusable piece in the middle of a list.",
    [DS],
    [("shuffle, slicing and exclusion of unusable pieces", DS + ":get_split_file_ids_and_pieces"),
     ("data sets per split", DS + ":get_dataset_splits")],
    ["ids, piece contents and data set items of every split, or the error"],
    note="seeded sampling; oracle: every piece loaded and turned into a data set on its own")
add("P08", "Training data on disk pair each piece with its own id, or are refused",
    "Whatever create_h5_data.py leaves on disk when it succeeds, is killed or fails at any point (also over "
    "the output of an earlier run), the pieces, ids and data sets later read from there belong together and "
    "stem from one complete run with the proportions asked for, or are refused. The consumers (training, the initial-chord prior, "
    "evaluation) see each piece's own contents. An undisturbed re-run repairs everything.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "every crash point, torn write, full disk and write error during one or several runs, over empty and "
    "previously used folders, tables and MusicXML",
    "No test runs the scripts, let alone interrupts them.",
    ["create_h5_data.py", "train.py", DU, DS],
    [("piece files, id lists and data sets written one after the other", "create_h5_data.py"),
     ("reading them back by position", DU + ":load_pieces")],
    ["ids and contents of the pieces read back", "items of the data sets", "exit status"],
    note="seeded sampling of failure points; process-crash disk model; h5py is a stand-in")
JM = P + "models/joint_model.py"
add("P13", "An annotation depends only on piece, model and forced labels, and obeys them",
    "Annotating a piece gives the same result whatever was annotated before with the same model, also after "
    "a decoding that failed, was interrupted or ran out of memory, and whether or not logging is verbose. "
    "The chords tile the piece without gap or overlap, every forced chord, key, change and non-change is "
    "obeyed, contradictory forces are reported, and decoding never crashes for a valid piece. Forcing a "
    "decoding to its own answer gives that answer again, and the score of an answer is that of its own path, "
    "whatever other hypotheses are searched beside it.",
    ["histories", "fault_sequences", "inputs", "configurations"],
    "all pieces, models, search parameters, sets of forces and histories of decodings with failures at any "
    "step",
    "No test decodes a piece; state left over by an earlier decoding shows only in a history.",
    [JM, P + "utils/beam_search_utils.py"],
    [("per-piece state of the decoder", JM + ":HarmonicInferenceModel.get_harmony"),
     ("forced labels in range search and beam search", JM + ":HarmonicInferenceModel.beam_search")],
    ["annotation table of every decoding, or the error"],
    note="seeded sampling; oracle: a fresh model on a fresh piece in a fork, the tiling and force conditions "
         "themselves, and a second decoding forced to the answer of the first; networks are deterministic seeded stand-ins behind the real sub-model code")
BS = P + "utils/beam_search_utils.py"
add("P19", "Beams keep the best hypotheses and every hypothesis keeps its own history",
    "After any sequence of offers a beam holds exactly the best distinct hypotheses it has room for (one "
    "per hash for a hashed beam, forced ones always). Every hypothesis reports the chords, keys, change "
    "positions, probability and model inputs of its own path, unchanged by what its ancestors, siblings "
    "or descendants go through, at any length.",
    ["histories", "inputs"],
    "all interleaved histories of offers, evictions, emptyings and of transitions, rejoins, copies and "
    "probability updates over trees of hypotheses",
    "The existing tests make a handful of offers and transitions; aliasing and eviction errors need longer "
    "branching histories.",
    [BS],
    [("bounded priority queues", BS + ":Beam, HashedBeam"),
     ("hypotheses sharing their past through links", BS + ":State")],
    ["iteration order, contents and fit answers of the beams", "every accessor of every live hypothesis"],
    note="seeded sampling of operation histories; oracle: plain lists; no faults apply, the schedule of "
         "operations is what is searched")


AN = "annotate.py"
add("P10", "Annotating a batch gives every piece its own complete label file, or none",
    "Annotating many pieces writes, for each piece that could be decoded, one label file of its own holding "
    "exactly that piece's chords and keys at their positions, wherever pieces share names or lie in different "
    "folders; a piece without an answer gets no file and disturbs no other. If the run is killed or a write "
    "fails at any point, no label file that is cut short or of another piece is left to be read as complete, "
    "and a failure is reported. An undisturbed re-run gives exactly the files of a first run.",
    ["crash_points", "fault_sequences", "inputs", "configurations", "histories"],
    "all batches of pieces, names and folders, decoder answers, and every crash point, torn write, full disk "
    "and write error, over fresh and used output folders",
    "No test runs annotate.py; collisions and cut files need several pieces or a kill.",
    [AN, P + "utils/eval_utils.py", DU],
    [("output path of a piece", AN), ("table of chords and keys", "harmonic_inference/utils/eval_utils.py"),
     ("write and removal of an incomplete table", AN)],
    ["the output folder's files, read with an independent TSV reader", "exit status and log"],
    note="seeded sampling; the decoder is a scripted stand-in looked up by the piece's notes; oracle: reference "
         "pieces built independently from the generated tables")
EU = P + "utils/eval_utils.py"
add("P11", "Evaluation reports each piece's true agreement with its own annotations",
    "For every evaluated piece, the reported accuracies, result tables and label tables are those of the "
    "decoder's answer compared, input by input, with that piece's own annotations, and forced labels reach "
    "exactly the piece they were given for. A crash or write error never leaves accuracies or tables that "
    "belong to another piece or state another agreement.",
    ["inputs", "configurations", "fault_sequences", "crash_points"],
    "all annotated corpora, answers, forced labels, chosen splits, and crash and write-error placements",
    "Unit tests evaluate two fixed states; no test runs the evaluation script.",
    ["test.py", EU, DU],
    [("accuracies weighted by note duration", EU + ":evaluate_chords and its siblings"),
     ("forced labels by piece", "test.py:load_forces_from_json")],
    ["log lines, result tables, label tables"],
    note="seeded sampling; scripted decoder; oracle: independent exact (Fraction) computation of every "
         "accuracy and table")
add("P12", "A log's average is that of the accuracies recorded in full",
    "Averaging a log gives, for each measure, the mean of all values recorded completely in it, whether the "
    "evaluation finished, was killed at any write, or logs were joined. A value that was cut off never counts "
    "as another value.",
    ["crash_points", "inputs", "fault_sequences"],
    "all logs of evaluations killed at any write or cut at any byte, verbose or not, and any read schedule",
    "The averaging has no test; a cut value only arises from a kill or full disk.",
    ["test.py", EU],
    [("line-wise reading of a log", EU + ":average_results")],
    ["the printed or returned averages"],
    note="seeded sampling of kills and cuts; oracle: exact mean over complete lines")
add("P16", "Every label file goes onto the score of its own piece and onto no other",
    "Writing a folder of label files onto scores pairs each label file with the score of exactly the same "
    "name in the corresponding folder, whatever other similar or unusual names exist and however the folders "
    "are listed. A missing or damaged score, or a read or write failure, concerns that piece only.",
    ["inputs", "schedules", "fault_sequences"],
    "all sets of names (prefixes, pattern characters), folder layouts, listing orders and failing files",
    "The script has no test; a wrong pairing needs names that look alike.",
    ["write_to_score.py", EU],
    [("file selection by name", "write_to_score.py"), ("one parser per piece", EU + ":write_labels_to_score")],
    ["which label file is attached to which score", "files written"],
    note="seeded sampling; ms3's parser is a recording stand-in that selects and matches files by ms3's rules")
add("P17", "A model's reported accuracy and loss do not depend on the batching",
    "Evaluating a sub-model on a data set reports the share of correct items and the mean loss per item of "
    "that data set, whatever the batch size, order of pieces and loader scheduling, and again after an "
    "evaluation that failed.",
    ["inputs", "schedules", "configurations", "fault_sequences"],
    "all data sets, weights, batch sizes, orders, worker schedules and failure points",
    "No test evaluates a model; uneven last batches are the point.",
    [P + "models/chord_classifier_models.py", P + "models/chord_transition_models.py",
     P + "models/chord_sequence_models.py", P + "models/key_transition_models.py",
     P + "models/key_sequence_models.py"],
    [("weighting of batches", "evaluate of each model module")],
    ["returned accuracy and loss"],
    note="seeded sampling; torch is a numpy stand-in; oracle: counts over all items one by one")
add("P18", "A run uses exactly the checkpoints and settings it was asked for, or fails",
    "Annotation and evaluation use, for each sub-model, the checkpoint and version asked for (or the documented "
    "default) and exactly the given search settings, also through the defaults options, however directories "
    "are listed. A missing, damaged, unreadable or wrong checkpoint or prior is an error, never another model.",
    ["configurations", "schedules", "fault_sequences"],
    "all checkpoint folders, version and path choices, settings, listing orders and read failures",
    "No test loads models from a folder.",
    [AN, "test.py", P + "models/joint_model.py", P + "utils/data_utils.py"],
    [("choice of checkpoint", DU + ":load_models_from_argparse"),
     ("settings into the joint model", P + "models/joint_model.py:from_args")],
    ["identity of every sub-model and every setting of the joint model used, or the error"],
    note="seeded sampling; checkpoints are small stand-in files naming their class")


add("P24", "A training run fits the model it was asked for, on exactly its own split",
    "Training a sub-model builds exactly the model asked for, with the given options and learning rate, and feeds "
    "it every item of the training set of its seed once per epoch, validates it on the validation set of the same "
    "seed, and optimises and reports the loss and accuracy of these items; checkpoints go where they were asked to "
    "go. The initial-chord prior is counted from the pieces of its own training split. A missing, damaged or unreadable data or option file is an error, never other data, and running out of "
    "memory changes no item.",
    ["inputs", "configurations", "schedules", "fault_sequences"],
    "all data sets, model options, seeds, places, epoch shuffles, loader schedules, read failures and memory limits",
    "No test runs train.py or a training step.",
    ["train.py", P + "data/datasets.py", P + "models/chord_classifier_models.py"],
    [("data, model and trainer of a run", "train.py"), ("options by file", DU + ":load_kwargs_from_json"),
     ("training and validation steps", P + "models/*_models.py:training_step, validation_step")],
    ["items, losses and measures seen by the trainer", "settings of model, loaders and trainer"],
    note="seeded sampling; the trainer is a stand-in that runs the loops without gradients; oracle: items and losses "
         "recomputed from the pieces one by one")
add("P25", "A grid search covers every combination once, each in a place of its own",
    "The commands printed by a grid search, executed in any order and repeated after being killed, evaluate every "
    "combination of the given values exactly once, each with its own settings and with all common arguments (models, "
    "data, seed, split, places, also with unusual names), and leave every combination's results in a place of its own "
    "below the output folder.",
    ["configurations", "schedules", "crash_points"],
    "all value lists, models and places, orders of execution, and kills or write errors of any command",
    "Neither grid_search.py nor the commands it prints are run by a test.",
    ["grid_search.py", "test.py", P + "models/joint_model.py"],
    [("product of the value lists and name of the result folder", "grid_search.py"),
     ("settings of the decoder", P + "models/joint_model.py:add_joint_model_args, from_args")],
    ["settings, models and pieces of every evaluation that the commands start, and where its log lies"],
    note="seeded sampling; commands are split as a POSIX shell does and run through the real test.py with a decoder "
         "that records what it was given")


PURE = "a pure function of its arguments: no concurrency, time, I/O, randomness or history for a simulator to " \
       "control; choosing arguments only would be plain property-based testing"
add("P20", "One-hot indices and labels of chords, keys and pitches are inverse to each other",
    "For every pitch type, chord type and key mode, turning a label into its index and back is the identity, "
    "every index has exactly one label, and transposition by an interval and back is the identity inside the "
    "pitch range.",
    ["inputs"], "all pitch types, chord types, inversions, modes and intervals",
    "Tests sample some of them.",
    [P + "utils/harmonic_utils.py"],
    [("index arithmetic", P + "utils/harmonic_utils.py")], ["returned indices and labels"], na=PURE)
add("P21", "Metrical positions and lengths agree with the measure table",
    "The metrical level of a position and the length of any range equal those computed from time signatures "
    "and measure offsets, for all positions, repeats and incomplete measures.",
    ["inputs"], "all measure tables and ranges", "Tests sample a few meters.",
    [P + "utils/rhythmic_utils.py"],
    [("range length over the next-measure chain", P + "utils/rhythmic_utils.py:get_range_length")],
    ["returned levels and lengths"],
    na=PURE + "; pieces loaded from disk are compared with an independent computation of both under P03, P09 and P15")
add("P22", "The decoder finds the most probable annotation its search space contains",
    "With an unlimited beam the annotation returned is the most probable tiling and labelling under the "
    "sub-models.",
    ["inputs"], "all pieces and sub-model outputs", "Tests never decode.",
    [P + "models/joint_model.py"],
    [("beam search", P + "models/joint_model.py:HarmonicInferenceModel.beam_search")], ["annotation"],
    na="a beam search promises no optimum (pruning, branching limits and rejoining are heuristics by design), so "
       "there is no guarantee to break; what it does promise is decided as P13 and P19")
add("P23", "Training learns models that annotate accurately",
    "The published checkpoints and newly trained models reach the accuracy reported for them.",
    ["inputs"], "all corpora", "Needs data and hours of training.",
    ["train.py"], [("training loops", "train.py")], ["accuracy"],
    na="neither torch nor any corpus or readable checkpoint is available offline, and accuracy is a statistical "
       "aim, not an invariant of executions")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as out:
        for item in ALL:
            assert len(item["row"]["title"]) <= 80, item["row"]["title"]
            out.write(json.dumps(item["row"]) + "\n")
    checks, na = [], []
    for item in ALL:
        ident = item["row"]["id"]
        if item["na"]:
            na.append({"property": ident, "reason": item["na"]})
            continue
        checks.append({
            "property": ident,
            "quick_cmd": f"./check.sh {ident} quick",
            "thorough_cmd": f"./check.sh {ident} thorough",
            "evidence_file": f"evidence/{ident}.json",
            "technique": TECH,
            "level": "exploration",
            "level_note": item["note"],
        })
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks were needed in /repo: disk, directory order, process death, randomness, data-loader "
                 "scheduling and failing allocations are all controlled from outside (patched standard "
                 "library entry points inside forked simulated processes, stand-ins for libraries that are "
                 "not installed). Known and fixed findings: known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")


if __name__ == "__main__":
    main()
