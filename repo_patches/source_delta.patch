From 72033106d26caf438e4810041bffab6f89f06d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 01/43] fix: assign aggregated file ids independently of
 directory listing order

---
 harmonic_inference/data/corpus_reading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index b9de122..730b384 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -253,7 +253,7 @@ def aggregate_annotation_dfs(
     dir_name = "notes" if notes_only else "harmonies"
 
     for file_string in tqdm(
-        glob(str(Path(annotations_path, f"**/{dir_name}/*.tsv")), recursive=True)
+        sorted(glob(str(Path(annotations_path, f"**/{dir_name}/*.tsv")), recursive=True))
     ):
         file_path = Path(file_string)
         base_path = file_path.parent.parent
-- 
2.43.0


From 0b541b7ca8e202aa098cb3e6519db84fdcb98f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:48 +0000
Subject: [PATCH 02/43] fix: an interrupted or failed aggregation can no longer
 be loaded as if it were complete

---
 harmonic_inference/data/corpus_reading.py | 33 +++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index 730b384..19aa348 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -214,6 +214,22 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
     return files_df, measures_df, chords_df, notes_df
 
 
+def write_dump(df: pd.DataFrame, path: Path):
+    """
+    Write a data frame to a tsv file, raising an error if it could not be written completely
+    (given a path, pandas ignores any error which occurs while closing the file).
+
+    Parameters
+    ----------
+    df : pd.DataFrame
+        The data frame to write.
+    path : Path
+        The path of the tsv file to write it to.
+    """
+    with open(path, "w", encoding="utf-8", newline="") as file:
+        df.to_csv(file, sep="\t")
+
+
 def aggregate_annotation_dfs(
     annotations_path: Union[Path, str],
     out_dir: Union[Path, str],
@@ -299,21 +315,28 @@ def aggregate_annotation_dfs(
     if not out_dir.exists():
         out_dir.mkdir(parents=True, exist_ok=True)
 
-    files_df = pd.DataFrame(files_dict)
-    files_df.to_csv(Path(out_dir, "files.tsv"), sep="\t")
+    # A data directory without a files.tsv cannot be loaded, so remove any existing files.tsv
+    # first and write the new one last, in case the aggregation is interrupted in between.
+    for name in ["files.tsv", "chords.tsv", "notes.tsv", "measures.tsv"]:
+        if Path(out_dir, name).exists():
+            Path(out_dir, name).unlink()
 
     if chord_df_list:
         chords_df = pd.concat(
             chord_df_list, keys=chord_indexes, axis=0, names=["file_id", "chord_id"]
         )
-        chords_df.to_csv(Path(out_dir, "chords.tsv"), sep="\t")
+        write_dump(chords_df, Path(out_dir, "chords.tsv"))
 
     if note_df_list:
         notes_df = pd.concat(note_df_list, keys=note_indexes, axis=0, names=["file_id", "note_id"])
-        notes_df.to_csv(Path(out_dir, "notes.tsv"), sep="\t")
+        write_dump(notes_df, Path(out_dir, "notes.tsv"))
 
     if measure_df_list:
         measures_df = pd.concat(
             measure_df_list, keys=measure_indexes, axis=0, names=["file_id", "measure_id"]
         )
-        measures_df.to_csv(Path(out_dir, "measures.tsv"), sep="\t")
+        write_dump(measures_df, Path(out_dir, "measures.tsv"))
+
+    files_df = pd.DataFrame(files_dict)
+    write_dump(files_df, Path(out_dir, "files.tsv.tmp"))
+    Path(out_dir, "files.tsv.tmp").replace(Path(out_dir, "files.tsv"))
-- 
2.43.0


From 08a199a4c1ffbb078ec1887b3d585d6b7f64c84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:40 +0000
Subject: [PATCH 03/43] fix: a corpus containing a single piece can be loaded

---
 harmonic_inference/utils/corpus_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index ca41395..a7c99d1 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -74,6 +74,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
     last_measures |= np.roll(
         measures.index.get_level_values("file_id").to_numpy(), -1
     ) != measures.index.get_level_values("file_id")
+    last_measures.iloc[-1:] = True  # Not found by the comparison if there is only 1 piece
 
     next_lengths[last_measures] = 0
 
@@ -97,6 +98,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
         start_measures = np.roll(
             measures.index.get_level_values("file_id").to_numpy(), 1
         ) != measures.index.get_level_values("file_id")
+        start_measures[:1] = True  # Not found by the comparison if there is only 1 piece
         start_indices = list(measures.index.to_numpy()[start_measures])
 
         # Save to reset type later. Needs to be nullable for the merge to work
@@ -179,10 +181,11 @@ def add_chord_metrical_data(chords: pd.DataFrame, measures: pd.DataFrame) -> pd.
     chords.loc[:, f"{CHORD_ONSET_BEAT}_next"] = chords[CHORD_ONSET_BEAT].shift(-1)
 
     # For the last chord of each piece, it is more complicated
-    last_chords = chords.loc[
-        chords.index.get_level_values("file_id")
-        != np.roll(chords.index.get_level_values("file_id"), -1)
-    ]
+    last_chords_mask = chords.index.get_level_values("file_id") != np.roll(
+        chords.index.get_level_values("file_id"), -1
+    )
+    last_chords_mask[-1:] = True  # Not found by the comparison if there is only 1 piece
+    last_chords = chords.loc[last_chords_mask]
     last_measures = measures.loc[measures.next.isnull()]
     last_merged = pd.merge(
         last_chords.reset_index(),
-- 
2.43.0


From f285b28d82725524d88303a5be5ca3caa2931caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:40 +0000
Subject: [PATCH 04/43] fix: an unreadable chords.tsv is an error rather than a
 corpus without annotations

---
 harmonic_inference/data/corpus_reading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index 19aa348..60231bb 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -95,7 +95,7 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
     notes_df = read_dump(Path(dir_path, "notes.tsv"))
     try:
         chords_df = read_dump(Path(dir_path, "chords.tsv"), low_memory=False)
-    except Exception:
+    except FileNotFoundError:
         # Enable loading with no annotations
         chords_df = None
 
-- 
2.43.0


From b809ed6e1497f61cb25d822a7dc8d68b034444a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:55 +0000
Subject: [PATCH 05/43] fix: a piece without notes or measures no longer
 prevents the rest of its corpus from loading

---
 harmonic_inference/data/corpus_reading.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index 60231bb..17497eb 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -101,18 +101,16 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
 
     if count is not None:
         files_df = files_df.iloc[:count]
-        measures_df = measures_df.loc[files_df.index]
-        notes_df = notes_df.loc[files_df.index]
-        if chords_df is not None:
-            chords_df = chords_df.loc[files_df.index]
 
     # Bugfix for Couperin piece "next" error
     files_df = files_df.loc[~(files_df["file_name"] == "c11n08_Rondeau.tsv")]
-    measures_df = measures_df.loc[files_df.index]
-    notes_df = notes_df.loc[files_df.index]
+    # End bugfix
+
+    # Keep only rows from the remaining files. A file might not have rows in every data frame.
+    measures_df = measures_df.loc[measures_df.index.get_level_values(0).isin(files_df.index)]
+    notes_df = notes_df.loc[notes_df.index.get_level_values(0).isin(files_df.index)]
     if chords_df is not None:
         chords_df = chords_df.loc[chords_df.index.get_level_values(0).isin(files_df.index)]
-    # End bugfix
 
     # Incomplete column renaming
     if "offset" in measures_df.columns:
-- 
2.43.0


From 7925743728e46cbcf75b7d69179a7718ec02f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 06/43] fix: a piece with a single note or a single chord can
 be created

---
 harmonic_inference/data/piece.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 1ec1f9a..f8902b0 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -635,8 +635,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     notes, note_ilocs = np.hsplit(notes_list, 2)
-    notes = np.squeeze(notes)
-    note_ilocs = np.squeeze(note_ilocs).astype(int)
+    notes = np.squeeze(notes, axis=1)
+    note_ilocs = np.squeeze(note_ilocs, axis=1).astype(int)
 
     if chords_df is None:
         # Quick check for pieces without ground truth chords
@@ -670,8 +670,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     chords_list, chord_ilocs = np.hsplit(chords_list, 2)
-    chords_list = np.squeeze(chords_list)
-    chord_ilocs = np.squeeze(chord_ilocs).astype(int)
+    chords_list = np.squeeze(chords_list, axis=1)
+    chord_ilocs = np.squeeze(chord_ilocs, axis=1).astype(int)
 
     # Remove accidentally repeated chords
     non_repeated_mask = get_reduction_mask(
-- 
2.43.0


From 96a0b5b3fde4f505e9f9fd269727d87951dc2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 07/43] fix: xml files keep their own chord labels when another
 file has none

---
 harmonic_inference/utils/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 79a549e..681f84f 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -102,7 +102,7 @@ def load_pieces(
         csvs = []
 
         if Path(input_path).is_file():
-            xmls = [input_path]
+            xmls = [Path(input_path)]
             csvs = [None]
             input_path = Path(input_path).parent
 
@@ -119,7 +119,7 @@ def load_pieces(
 
                 if music_xml_path.exists():
                     xmls.append(music_xml_path)
-                    csvs.append(label_csv_path) if label_csv_path.exists() else None
+                    csvs.append(label_csv_path if label_csv_path.exists() else None)
 
     else:
         files_df, measures_df, chords_df, notes_df = load_clean_corpus_dfs(input_path)
-- 
2.43.0


From 633e21d74ab589d53b0cae5a33d611cde6d3708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 08/43] fix: pieces without annotations can be loaded along
 with annotated ones

---
 harmonic_inference/utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 681f84f..e1ce6db 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -171,7 +171,9 @@ def load_pieces(
         pieces = [
             get_score_piece_from_data_frames(
                 notes_df.loc[file_id],
-                chords_df.loc[file_id] if chords_df is not None else None,
+                chords_df.loc[file_id]
+                if chords_df is not None and file_id in chords_df.index.get_level_values(0)
+                else None,
                 measures_df.loc[file_id],
                 name=(
                     f"{file_id}: {files_df.loc[file_id, 'corpus_name']}/"
-- 
2.43.0


From feb5f0cb8c30b6573adec5f5639bafa1fa43efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 09/43] fix: never pair pre-loaded piece dicts with file ids
 they do not belong to

---
 harmonic_inference/utils/data_utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index e1ce6db..9d801c2 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -94,7 +94,7 @@ def load_pieces(
     ------
     ValueError
         If a specific_id is specified, but no file_ids are given, or the specific_id is not found in
-        the given file_ids.
+        the given file_ids. Or if the pre-loaded dicts do not match the given file_ids.
     """
     # Load raw data
     if xml:
@@ -128,13 +128,15 @@ def load_pieces(
         file_ids = list(files_df.index) if not xml else list(range(len(xmls)))
 
     # Load from pkl if available
-    if piece_dicts_path:
-        pkl_path = Path(piece_dicts_path)
-        if pkl_path.exists():
-            with open(pkl_path, "rb") as pkl_file:
-                piece_dicts = pickle.load(pkl_file)
-    elif xml:
-        piece_dicts = [None] * len(xmls)
+    if piece_dicts_path and Path(piece_dicts_path).exists():
+        with open(piece_dicts_path, "rb") as pkl_file:
+            piece_dicts = pickle.load(pkl_file)
+
+        if len(piece_dicts) != len(file_ids):
+            raise ValueError(
+                f"{piece_dicts_path} contains {len(piece_dicts)} pieces, but there are "
+                f"{len(file_ids)} file_ids to load."
+            )
     else:
         piece_dicts = [None] * len(file_ids)
 
-- 
2.43.0


From 38aecf27f0cbd14a75514f0ff558c61dff2603eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:49 +0000
Subject: [PATCH 10/43] fix: an initial chord model can be loaded without
 inversions or with a reduction

---
 .../models/initial_chord_models.py            | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index dab7fa7..9a477d0 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -7,8 +7,9 @@ from typing import Dict, List, Union
 import numpy as np
 
 from harmonic_inference.data.chord import Chord, get_chord_vector_length
-from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode
+from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode, PitchType
 from harmonic_inference.data.piece import Piece
+from harmonic_inference.utils.harmonic_constants import MIN_RELATIVE_TPC
 from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
     get_chord_label_list,
@@ -108,12 +109,16 @@ class SimpleInitialChordModel:
                 self.reduction = new_reduction
 
         if reduction is not None or not use_inversions:
-            num_labels = get_chord_label_list(
-                self.PITCH_TYPE,
-                use_inversions,
-                relative=True,
-                reduction=reduction,
+            num_labels = len(
+                get_chord_label_list(
+                    self.PITCH_TYPE,
+                    use_inversions,
+                    relative=True,
+                    reduction=reduction,
+                )
             )
+            # Relative TPC roots are centered around 0, but one-hot roots begin at 0
+            min_root = MIN_RELATIVE_TPC if self.PITCH_TYPE == PitchType.TPC else 0
             self.major_prior = np.zeros(num_labels)
             self.minor_prior = np.zeros(num_labels)
 
@@ -130,7 +135,7 @@ class SimpleInitialChordModel:
             ):
                 index = get_chord_one_hot_index(
                     chord_type,
-                    root,
+                    root - min_root,
                     self.PITCH_TYPE,
                     inversion=inversion,
                     use_inversion=use_inversions,
@@ -187,7 +192,10 @@ class SimpleInitialChordModel:
 
         for piece in pieces:
             first_chord_one_hot = piece.get_chords()[0].get_one_hot_index(
-                relative=True, use_inversion=True, pad=False
+                relative=True,
+                use_inversion=self.use_inversions,
+                pad=False,
+                reduction=self.reduction,
             )
 
             if piece.get_keys()[0].relative_mode == KeyMode.MAJOR:
-- 
2.43.0


From 16852a9d5301aa1733f0eb6dfde1e5d6563ff262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:13 +0000
Subject: [PATCH 11/43] fix: reading an item of a key data set no longer
 changes the data set or fails for its longest piece

---
 harmonic_inference/data/datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e9d8284..d259da7 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -840,10 +840,11 @@ class KeyHarmonicDataset(HarmonicDataset):
             key_change_replacement = self.key_change_replacements[item]
             target = self.targets[item]
 
-            if len(piece_input) < self.max_input_length:
-                padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
-                padded_input[: len(piece_input)] = piece_input
-                piece_input = padded_input
+        # Copy the input, leaving space for the key change replacement of the longest one
+        max_input_length = max(len(piece_input), self.max_input_length or 0)
+        padded_input = np.zeros((max_input_length + 1, piece_input.shape[1]))
+        padded_input[: len(piece_input)] = piece_input
+        piece_input = padded_input
 
         # Create target list (if KTD)
         if isinstance(self, KeyTransitionDataset):
-- 
2.43.0


From 43413aca3d96bf4bf32d9a5a58b128fd33950c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:13 +0000
Subject: [PATCH 12/43] fix: chord type and inversion reductions can be applied
 to data set inputs

---
 harmonic_inference/data/vector_decoding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index ca2ad2f..03d819b 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -208,7 +208,8 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
     Parameters
     ----------
     vector_length : int
-        The length of a chord vector.
+        The length of a chord vector, either alone or followed by a key change vector and
+        an is_key_change indicator (as in the chord sequence and key datasets).
     pad : bool
         Whether padding is used in the chord vector.
 
@@ -223,7 +224,9 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
         If no known PitchType results in the given vector length.
     """
     for pitch_type in PitchType:
-        if vector_length == get_chord_vector_length(pitch_type, one_hot=False, pad=pad):
+        chord_length = get_chord_vector_length(pitch_type, one_hot=False, pad=pad)
+        key_change_length = 1 + get_key_change_vector_length(pitch_type, one_hot=False)
+        if vector_length in (chord_length, chord_length + key_change_length):
             return pitch_type
 
     raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
@@ -445,9 +448,6 @@ def reduce_chord_types(
     new_chord_type_vectors = np.zeros_like(chord_type_vectors)
 
     for from_type, to_type in reduction.items():
-        if from_type == to_type:
-            continue
-
         from_index = from_type.value
         to_index = to_type.value
 
-- 
2.43.0


From 55365589615ec4cb6bb69e635233f51ff0357b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:28 +0000
Subject: [PATCH 13/43] fix: key data sets loaded from an h5 file contain all
 of the chords of each piece

---
 harmonic_inference/data/datasets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index d259da7..956069e 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1112,8 +1112,14 @@ def h5_to_dataset(
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
                     lengths = np.array(h5_file[f"{data}_lengths"])
+                    setattr(dataset, f"{data}_lengths", lengths)
                     data_list = []
 
+                    if data == "input" and "piece_lengths" in h5_file:
+                        # Key datasets: lengths are per item, but there is 1 input per piece,
+                        # which is as long as the longest (last) item of that piece.
+                        lengths = lengths[np.cumsum(h5_file["piece_lengths"]) - 1]
+
                     for chunk_start in tqdm(
                         range(0, len(lengths), chunk_size),
                         desc=f"Loading {data} chunks from {h5_path}",
@@ -1127,7 +1133,6 @@ def h5_to_dataset(
                             ]
                         )
 
-                    setattr(dataset, f"{data}_lengths", lengths)
                     setattr(dataset, f"{data}s", data_list)
 
                 else:
-- 
2.43.0


From ca25b452e5e62c65784c59c84c12354e9c5df93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:28 +0000
Subject: [PATCH 14/43] fix: a data set too large for memory can be read from
 its h5 file

---
 harmonic_inference/data/datasets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 956069e..04792a8 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1108,6 +1108,11 @@ def h5_to_dataset(
         dataset.in_ram = False
         chunk_size = dataset.chunk_size
 
+        # These are needed (and small enough) even if the rest of the data will not fit into RAM
+        for key in ["piece_lengths", "target_pitch_type"]:
+            if key in h5_file:
+                setattr(dataset, key, np.array(h5_file[key]))
+
         try:
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
@@ -1138,9 +1143,8 @@ def h5_to_dataset(
                 else:
                     setattr(dataset, f"{data}s", np.array(h5_file[f"{data}s"], dtype=np.float16))
 
-            for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
-                if key in h5_file:
-                    setattr(dataset, key, np.array(h5_file[key]))
+            if "key_change_replacements" in h5_file:
+                dataset.key_change_replacements = np.array(h5_file["key_change_replacements"])
 
             dataset.in_ram = True
 
-- 
2.43.0


From 57d34a35f596045aafc89c53ca43178cfe1ada68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:42 +0000
Subject: [PATCH 15/43] fix: an interrupted or failed data set save never
 replaces the h5 file and is reported

---
 harmonic_inference/data/datasets.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 04792a8..6e4a927 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1,5 +1,6 @@
 """Module containing datasets for the various models."""
 import logging
+import os
 import shutil
 from pathlib import Path
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Union
@@ -273,16 +274,19 @@ class HarmonicDataset(Dataset):
         if not self.padded:
             self.pad()
 
+        # Write to a temporary file first, so that h5_path never contains a partial dataset
+        tmp_path = h5_path.with_name(h5_path.name + ".tmp")
+
         if self.h5_path:
             try:
-                shutil.copy(self.h5_path, h5_path)
+                shutil.copy(self.h5_path, tmp_path)
+                os.replace(tmp_path, h5_path)
                 self.h5_path = h5_path
             except OSError:
                 logging.exception("Error copying existing h5 file %s to %s", self.h5_path, h5_path)
+                raise
             return
 
-        h5_file = h5py.File(h5_path, "w")
-
         keys = [
             "inputs",
             "targets",
@@ -292,12 +296,15 @@ class HarmonicDataset(Dataset):
             "key_change_replacements",
             "target_pitch_type",
         ]
-        for key in keys:
-            if hasattr(self, key) and getattr(self, key) is not None:
-                h5_file.create_dataset(key, data=np.array(getattr(self, key)), compression="gzip")
-        if file_ids is not None:
-            h5_file.create_dataset("file_ids", data=np.array(file_ids), compression="gzip")
-        h5_file.close()
+        with h5py.File(tmp_path, "w") as h5_file:
+            for key in keys:
+                if hasattr(self, key) and getattr(self, key) is not None:
+                    h5_file.create_dataset(
+                        key, data=np.array(getattr(self, key)), compression="gzip"
+                    )
+            if file_ids is not None:
+                h5_file.create_dataset("file_ids", data=np.array(file_ids), compression="gzip")
+        os.replace(tmp_path, h5_path)
 
 
 class ChordTransitionDataset(HarmonicDataset):
-- 
2.43.0


From bc68482a9c3c06bc1addd99593a3bb23b60e1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 16/43] fix: one score that cannot be parsed no longer prevents
 all others from being split

---
 harmonic_inference/data/datasets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 6e4a927..71f33e7 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1270,9 +1270,13 @@ def get_split_file_ids_and_pieces(
             desc="Parsing MusicXML files",
             total=len(xml_and_csv_paths["xmls"]),
         ):
-            piece = get_score_piece_from_music_xml(xml_path, csv_path)
-            pieces.append(piece)
-            indexes.append(i)
+            try:
+                piece = get_score_piece_from_music_xml(xml_path, csv_path)
+                pieces.append(piece)
+                indexes.append(i)
+            except Exception:
+                logging.exception("Error parsing index %s", i)
+                continue
 
     # Shuffle the pieces and the df_indexes the same way
     shuffled_indexes = np.arange(len(indexes))
-- 
2.43.0


From 49314f854e04067d20aaddc4e5c8c7cdfcb8b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 17/43] fix: data can be created for a split in which no piece
 changes key

---
 harmonic_inference/data/datasets.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 71f33e7..983c551 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1361,6 +1361,14 @@ def get_dataset_splits(
             continue
 
         for dataset_index, dataset_class in enumerate(datasets):
-            dataset_splits[dataset_index][split_index] = dataset_class(pieces)
+            dataset = dataset_class(pieces)
+            if len(dataset) == 0:
+                logging.warning(
+                    "%s of split %s contains no data. Returning None for it.",
+                    dataset_class.__name__,
+                    split_index,
+                )
+                continue
+            dataset_splits[dataset_index][split_index] = dataset
 
     return dataset_splits, split_ids, split_pieces
-- 
2.43.0


From faa9fd02298be7a331ac27664631013ff5cf08ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 18/43] fix: ids of MusicXML pieces in h5 files are the ones
 they are loaded with

---
 create_h5_data.py                   | 5 +++--
 harmonic_inference/data/datasets.py | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/create_h5_data.py b/create_h5_data.py
index 9cd9c3c..2a32d90 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -112,9 +112,10 @@ if __name__ == "__main__":
                 music_xml_path.parent.parent / "chords" / Path(str(music_xml_path.stem) + ".csv")
             )
 
-            if music_xml_path.exists() and label_csv_path.exists():
+            # Include unlabeled scores too, since ids must match those of data_utils.load_pieces
+            if music_xml_path.exists():
                 xmls.append(music_xml_path)
-                csvs.append(label_csv_path)
+                csvs.append(label_csv_path if label_csv_path.exists() else None)
 
         xmls_and_csvs = {"xmls": xmls, "csvs": csvs}
 
diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 983c551..10b6afb 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1270,6 +1270,10 @@ def get_split_file_ids_and_pieces(
             desc="Parsing MusicXML files",
             total=len(xml_and_csv_paths["xmls"]),
         ):
+            if csv_path is None:
+                logging.warning("No labels found for %s (id %s).", xml_path, i)
+                continue
+
             try:
                 piece = get_score_piece_from_music_xml(xml_path, csv_path)
                 pieces.append(piece)
-- 
2.43.0


From c29595bc7eacaea6906fd758baaead4713ea30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:33 +0000
Subject: [PATCH 19/43] fix: an interrupted create_h5_data.py never leaves
 pieces paired with other file ids

---
 create_h5_data.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/create_h5_data.py b/create_h5_data.py
index 2a32d90..4f7667c 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -155,11 +155,13 @@ if __name__ == "__main__":
 
     os.makedirs(Path(ARGS.output), exist_ok=True)
 
-    for split, pieces in zip(SPLITS, split_pieces):
-        if len(pieces) > 0:
-            pickle_path = ARGS.output / f"pieces_{split}_seed_{ARGS.seed}.pkl"
-            with open(pickle_path, "wb") as pickle_file:
-                pickle.dump([piece.to_dict() for piece in pieces], pickle_file)
+    # Remove the results of any previous run, so that they can never be mixed with those of this one
+    # (pickled pieces first, since they are only usable along with the file_ids in the h5 files)
+    for prefix, suffix in [("pieces", "pkl")] + [(cls.__name__, "h5") for cls in DATASET_CLASSES]:
+        for split in SPLITS:
+            old_path = ARGS.output / f"{prefix}_{split}_seed_{ARGS.seed}.{suffix}"
+            if old_path.exists():
+                os.remove(old_path)
 
     for i1, data_type in enumerate(DATASET_CLASSES):
         for i2, split in enumerate(SPLITS):
@@ -167,3 +169,10 @@ if __name__ == "__main__":
                 h5_path = ARGS.output / f"{data_type.__name__}_{split}_seed_{ARGS.seed}.h5"
                 dataset_splits[i1][i2].to_h5(h5_path, file_ids=split_ids[i2])
                 dataset_splits[i1][i2] = None
+
+    # Write pickled pieces last, once the file_ids they belong to are available
+    for split, pieces in zip(SPLITS, split_pieces):
+        if len(pieces) > 0:
+            pickle_path = ARGS.output / f"pieces_{split}_seed_{ARGS.seed}.pkl"
+            with open(pickle_path, "wb") as pickle_file:
+                pickle.dump([piece.to_dict() for piece in pieces], pickle_file)
-- 
2.43.0


From 93e027255ca9b3b934bed36915552af23371585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:22 +0000
Subject: [PATCH 20/43] fix: a note transposed out of the valid pitch range is
 noticed

---
 harmonic_inference/data/vector_decoding.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 03d819b..64abc39 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -546,6 +546,11 @@ def transpose_note_vector(
     -------
     new_note_vector : List[float]
         The given note vector, transposed by the given interval.
+
+    Raises
+    ------
+    ValueError
+        If the transposed note lies outside of the valid pitch range.
     """
     # Infer pitch_type from vector length
     if pitch_type is None:
@@ -562,10 +567,10 @@ def transpose_note_vector(
     old_pitch = np.arange(NUM_PITCHES[pitch_type])[np.where(note_vector == 1)[0][0]]
     new_pitch = old_pitch + interval
 
-    if not (0 <= old_pitch < NUM_PITCHES[pitch_type]):
+    if not (0 <= new_pitch < NUM_PITCHES[pitch_type]):
         raise ValueError(
-            f"Transposed note {decode_note_vector(note_vector)} + {interval} "
-            f"outside of valid range (0 - {NUM_PITCHES[pitch_type]}"
+            f"Transposed note {old_pitch} + {interval} "
+            f"outside of valid range (0 - {NUM_PITCHES[pitch_type]})"
         )
 
     new_note_vector[old_pitch] = 0
-- 
2.43.0


From f608a59cfc15f6f4433e72d1c80982f16c0b28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:53 +0000
Subject: [PATCH 21/43] fix: a piece for which the last batch contains a single
 chord range can be decoded

---
 harmonic_inference/models/chord_classifier_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index e9b4f78..a2c611f 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -308,7 +308,7 @@ class SimpleChordClassifier(ChordClassifierModel):
         lstm_out_lengths_tensor = (
             lstm_out_lengths.unsqueeze(1).unsqueeze(2).expand((-1, 1, lstm_out_forward.shape[2]))
         ).to(self.device)
-        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze()
+        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze(1)
         last_backward = lstm_out_backward[:, 0, :]
         lstm_out = torch.cat((last_forward, last_backward), 1)
 
-- 
2.43.0


From 13da4ba08c6d3b09b05bfe3ed4fd638b88cd390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:47 +0000
Subject: [PATCH 22/43] fix: a chord hypothesis whose bass lies outside of the
 pitch range no longer aborts decoding

---
 harmonic_inference/utils/beam_search_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index d91cc34..cafcd4c 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -189,10 +189,14 @@ class State:
         -------
         new_state : State
             The state resulting from the given transition. None if the transition would
-            result in an invalid State (chord root too far away from key tonic).
+            result in an invalid State (chord root too far away from key tonic, or a bass note
+            outside of the valid pitch range).
         """
         root, chord_type, inversion = labels["chord"][chord]
-        bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        try:
+            bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        except ValueError:
+            return None
 
         tonic = self.get_key(pitch_type, labels).relative_tonic
         relative_root = root - tonic
-- 
2.43.0


From 2f3374af3a1034f2a8b89657cb1d5f2989fe5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:47 +0000
Subject: [PATCH 23/43] fix: a hashed beam can be used again after being
 emptied

---
 harmonic_inference/utils/beam_search_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index cafcd4c..ec15b9b 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -1099,7 +1099,7 @@ class HashedBeam(Beam):
         Empty this beam.
         """
         self.beam = []
-        self.state_dict = []
+        self.state_dict = {}
 
     def __iter__(self) -> Iterator[State]:
         return self.state_dict.values().__iter__()
-- 
2.43.0


From 5a88885df06703c21ae2c1b34f839fc31d4ab61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:34 +0000
Subject: [PATCH 24/43] fix: pieces with very many chords can be decoded

---
 harmonic_inference/utils/beam_search_utils.py | 93 +++++++++----------
 1 file changed, 45 insertions(+), 48 deletions(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index ec15b9b..6ea8447 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -627,7 +627,6 @@ class State:
             A Dictionary of key and chord labels for the current piece.
         length : int
             The number of input vectors that will be appended to the returned input nd-array.
-            The default value (0) should be used for the initial (non-recursive) call.
 
         Returns
         -------
@@ -662,39 +661,34 @@ class State:
                 hidden_state_2[1]
             )
 
-        this_ksm_input = np.squeeze(
-            self.get_ktm_input(
-                pitch_type,
-                duration_cache,
-                onset_cache,
-                onset_level_cache,
-                labels,
-            )
-        )
-
-        if (
-            self.prev_state is None
-            or self.prev_state.prev_state is None
+        # Find all states since the KSM was last run (or the first state)
+        states = [self]
+        while not (
+            states[-1].prev_state is None
+            or states[-1].prev_state.prev_state is None
             # In this case, the previous state has already been run
             or not hidden_states_equal(
-                self.prev_state.ksm_hidden_state,
-                self.prev_state.prev_state.ksm_hidden_state,
+                states[-1].prev_state.ksm_hidden_state,
+                states[-1].prev_state.prev_state.ksm_hidden_state,
             )
         ):
-            # Base case - this is the first state
-            ksm_input = np.zeros((length + 1, len(this_ksm_input)))
-            ksm_input[0] = this_ksm_input
-            return ksm_input
+            states.append(states[-1].prev_state)
+
+        ksm_inputs = [
+            np.squeeze(
+                state.get_ktm_input(
+                    pitch_type,
+                    duration_cache,
+                    onset_cache,
+                    onset_level_cache,
+                    labels,
+                )
+            )
+            for state in reversed(states)
+        ]
 
-        ksm_input = self.prev_state.get_ksm_input(
-            pitch_type,
-            duration_cache,
-            onset_cache,
-            onset_level_cache,
-            labels,
-            length=length + 1,
-        )
-        ksm_input[len(ksm_input) - length - 1] = this_ksm_input
+        ksm_input = np.zeros((len(ksm_inputs) + length, len(ksm_inputs[0])))
+        ksm_input[: len(ksm_inputs)] = ksm_inputs
         return ksm_input
 
     def get_chord(
@@ -828,14 +822,17 @@ class State:
             A List of the chord transition indexes up to this State. This list will be of
             length 1 greater than chords because it includes an initial 0.
         """
-        if self.prev_state is None:
-            return [], [self.change_index]
+        chords = []
+        changes = []
 
-        chords, changes = self.prev_state.get_chords()
-        chords.append(self.chord)
-        changes.append(self.change_index)
+        state = self
+        while state.prev_state is not None:
+            chords.append(state.chord)
+            changes.append(state.change_index)
+            state = state.prev_state
+        changes.append(state.change_index)
 
-        return chords, changes
+        return chords[::-1], changes[::-1]
 
     def get_keys(self) -> Tuple[List[int], List[int]]:
         """
@@ -849,19 +846,19 @@ class State:
             A List of the key transition indexes up to this State. This list will be of
             length 1 greater than keys because it includes an initial 0.
         """
-        if self.prev_state is None:
-            return [], [self.change_index]
-
-        keys, changes = self.prev_state.get_keys()
-        if len(keys) == 0 or self.key != keys[-1]:
-            keys.append(self.key)
-            changes.append(self.change_index)
-
-        # Key is equal to the previous one -- update change index
-        elif len(keys) != 0:
-            changes[-1] = self.change_index
-
-        return keys, changes
+        keys = []
+        changes = []
+
+        state = self
+        while state.prev_state is not None:
+            # Only the last (here, first encountered) change index of each key is kept
+            if len(keys) == 0 or state.key != keys[-1]:
+                keys.append(state.key)
+                changes.append(state.change_index)
+            state = state.prev_state
+        changes.append(state.change_index)
+
+        return keys[::-1], changes[::-1]
 
     def get_hash(self) -> Union[Tuple[Tuple[int, int]], int]:
         """
-- 
2.43.0


From 8533a0bad170aeaf376867d7f819b084494a10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:58 +0000
Subject: [PATCH 25/43] fix: contradictory forced labels are reported instead
 of failing on the report itself

---
 harmonic_inference/models/joint_model.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d283949..1c21228 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -392,12 +392,14 @@ class HarmonicInferenceModel:
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced change ({max(forced_changes)}) is beyond the end of the piece"
                     f" (maximum index {len(self.duration_cache) - 1})."
                 )
 
             if len(forced_non_changes) > 0 and max(forced_non_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced non-change ({max(forced_non_changes)}) is beyond the end of "
                     f"the piece (maximum index {len(self.duration_cache) - 1})."
                 )
@@ -405,6 +407,7 @@ class HarmonicInferenceModel:
             # Ensure that no index is both a forced change and a force non-change
             if len(forced_changes & forced_non_changes) > 0:
                 raise ArgumentError(
+                    None,
                     f"{forced_changes & forced_non_changes} are both forced {type_str} "
                     f"changes and forced {type_str} non-changes."
                 )
@@ -413,6 +416,7 @@ class HarmonicInferenceModel:
             for change_index in forced_changes:
                 if self.duration_cache[change_index - 1] == 0:
                     raise ArgumentError(
+                        None,
                         f"{change_index} is an invalid index for a forced change because it is not "
                         "the first note at its metrical postiion."
                     )
@@ -435,6 +439,7 @@ class HarmonicInferenceModel:
             for (start, end), label_id in forced_labels.items():
                 if label_id < 0 or label_id >= max_id:
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str}_id {label_id} is outside of the valid range for "
                         f"{type_str}s (0-{max_id})."
                     )
@@ -442,7 +447,8 @@ class HarmonicInferenceModel:
                 valid_indexes = np.isin(forced_ids[start:end], [-1, label_id])
                 if not np.all(valid_indexes):
                     raise ArgumentError(
-                        f"The following indexes are forced to multiple different {type_str}s: ",
+                        None,
+                        f"The following indexes are forced to multiple different {type_str}s: "
                         f"{np.where(valid_indexes == False)[0] + start}",
                     )
 
@@ -455,6 +461,7 @@ class HarmonicInferenceModel:
                     and forced_ids[change_index] != -1
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str} change at index {change_index} but forced {type_str} "
                         f"is {forced_ids[change_index]} both before and after."
                     )
@@ -465,10 +472,11 @@ class HarmonicInferenceModel:
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced non {type_str} change at index {change_index} but forced "
                         f"{type_str} changes at that index are "
-                        f"({self.forced_chords[change_index - 1]} before and "
-                        f"{self.forced_chords[change_index]} after)."
+                        f"({forced_ids[change_index - 1]} before and "
+                        f"{forced_ids[change_index]} after)."
                     )
 
         # Second, check compatability between chord and key forces
@@ -477,6 +485,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_key_changes:
             if change_index in self.forced_chord_non_changes:
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but a forced non-chord change."
                     " This is illegal: all key changes must be accompanied by a chord change."
                 )
@@ -486,6 +495,7 @@ class HarmonicInferenceModel:
                 and self.forced_chord_ids[change_index] != -1
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but the chord is forced to id "
                     f"{self.forced_chord_ids[change_index]} both before and after."
                 )
@@ -494,9 +504,10 @@ class HarmonicInferenceModel:
         for change_index in self.forced_chord_non_changes:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
-                and -1 not in self.forced_chord_ids[change_index]
+                and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced non-chord change, but the key changes from"
                     f" {self.forced_key_ids[change_index - 1]} to "
                     f"{self.forced_key_ids[change_index]} at that index."
-- 
2.43.0


From df8c60cbded911f05ed08180843bc5cf7e6a5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:58 +0000
Subject: [PATCH 26/43] fix: decoding a piece leaves the given forced changes
 as they are

---
 harmonic_inference/models/joint_model.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 1c21228..645e0a9 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -390,6 +390,9 @@ class HarmonicInferenceModel:
                 logging.warning("There can be no forced change at time 0. Ignoring.")
                 forced_changes.remove(0)
 
+            # There is never a change at time 0
+            forced_non_changes.discard(0)
+
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
                     None,
@@ -583,14 +586,10 @@ class HarmonicInferenceModel:
         ]
 
         # Validate forced changes
-        self.forced_chord_changes = set() if forced_chord_changes is None else forced_chord_changes
-        self.forced_chord_non_changes = (
-            set() if forced_chord_non_changes is None else forced_chord_non_changes
-        )
-        self.forced_key_changes = set() if forced_key_changes is None else forced_key_changes
-        self.forced_key_non_changes = (
-            set() if forced_key_non_changes is None else forced_key_non_changes
-        )
+        self.forced_chord_changes = set(forced_chord_changes or ())
+        self.forced_chord_non_changes = set(forced_chord_non_changes or ())
+        self.forced_key_changes = set(forced_key_changes or ())
+        self.forced_key_non_changes = set(forced_key_non_changes or ())
         self.forced_chords = dict() if forced_chords is None else forced_chords
         self.forced_keys = dict() if forced_keys is None else forced_keys
         self.forced_chord_ids = np.full(len(self.duration_cache), -1)
-- 
2.43.0


From ce7d6d5b8679bfa7a83703b13054c60069fbae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:58 +0000
Subject: [PATCH 27/43] fix: the probability of not changing key is that of the
 hypothesis which keeps its key

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 645e0a9..84cf839 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1074,7 +1074,7 @@ class HarmonicInferenceModel:
                         to_ksm_states.append(change_state)
 
                 if can_not_change:
-                    change_state.add_ktm_log_prob(no_change_log_prob * range_length)
+                    state.add_ktm_log_prob(no_change_log_prob * range_length)
                     if current_start == 0 or all_states[state.change_index].fits_in_beam(
                         state, check_hash=True
                     ):
-- 
2.43.0


From 730bf4276e49b9e9813ef224b8be7c8282ade0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:58 +0000
Subject: [PATCH 28/43] fix: no chord range contains inputs which are forced to
 different labels

---
 harmonic_inference/models/joint_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 84cf839..bd795fc 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -749,9 +749,6 @@ class HarmonicInferenceModel:
                 ),
                 start=start + 1,
             ):
-                if invalid[index]:
-                    continue
-
                 # Ensure range doesn't contain multiple different forced chords
                 if forced_chord != -1:
                     forced_chords.add(forced_chord)
@@ -766,6 +763,9 @@ class HarmonicInferenceModel:
                         reached_end = False
                         break
 
+                if invalid[index]:
+                    continue
+
                 # Ensure duration is still <= max_chord_length
                 running_duration += duration
                 if running_duration > self.max_chord_length:
@@ -789,8 +789,12 @@ class HarmonicInferenceModel:
                 # No change can occur
                 running_log_prob += no_change_log_prob
 
+            # The final input's forced labels have not been checked yet
+            forced_chords |= {self.forced_chord_ids[-1]} - {-1}
+            forced_keys |= {self.forced_key_ids[-1]} - {-1}
+
             # Detect if a chord reaches the end of the piece and add it here if so
-            if reached_end:
+            if reached_end and len(forced_chords) <= 1 and len(forced_keys) <= 1:
                 chord_ranges.append((start, len(change_probs)))
                 range_log_probs.append(running_log_prob)
 
-- 
2.43.0


From bfcb2a3b7528472d891b081dc4aeb499695cd61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:58 +0000
Subject: [PATCH 29/43] fix: forced key changes and non-changes are enforced,
 and no forced change is undone by joining chords

---
 harmonic_inference/models/joint_model.py | 52 ++++++++++++++++++++----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index bd795fc..8aceca1 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -673,7 +673,7 @@ class HarmonicInferenceModel:
             A List of the chord change probability on each input of the given Piece. This
             will be modified in place.
         """
-        change_probs[list(self.forced_chord_changes)] = 1.0
+        change_probs[list(self.forced_chord_changes | self.forced_key_changes)] = 1.0
         change_probs[list(self.forced_chord_non_changes)] = 0.0
 
     def get_chord_ranges(
@@ -1001,6 +1001,9 @@ class HarmonicInferenceModel:
                 for chord_id in chord_priors_argsort[:max_index]:
                     if chord_id == state.chord:
                         # Same chord as last range: rejoin a split range
+                        if not self._can_rejoin(state, range_end):
+                            continue
+
                         new_state = state.rejoin(
                             range_end,
                             (
@@ -1053,18 +1056,25 @@ class HarmonicInferenceModel:
                 can_change = change_prob >= self.min_key_change_prob
 
                 # Enforce forced key change (or non-key change)
+                must_change = state.prev_state.change_index in self.forced_key_changes
+                must_not_change = state.prev_state.change_index in self.forced_key_non_changes
                 forced_key_ids = set(
                     self.forced_key_ids[state.prev_state.change_index : state.change_index]
                 ) - set([-1])
                 if len(forced_key_ids) > 0:
-                    forced_key_id = list(forced_key_ids)[0]
-                    if state.key == forced_key_id:
-                        can_change = False
-                        # Drop the max_no_key_change_prob requirement but keep the other
-                        can_not_change = state.is_valid(check_key=True)
+                    if state.key == list(forced_key_ids)[0]:
+                        must_not_change = True
                     else:
-                        can_not_change = False
-                        can_change = True  # Drop the min_key_change_prob requirement
+                        must_change = True
+
+                if must_change:
+                    can_not_change = False
+                    # Drop the min_key_change_prob requirement
+                    can_change = not must_not_change
+                elif must_not_change:
+                    can_change = False
+                    # Drop the max_no_key_change_prob requirement but keep the other
+                    can_not_change = state.is_valid(check_key=True)
 
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
@@ -1116,6 +1126,32 @@ class HarmonicInferenceModel:
 
         return all_states[-1].get_top_state()
 
+    def _can_rejoin(self, state: State, range_end: int) -> bool:
+        """
+        Check if the forced labels and changes allow a state's chord to be extended.
+
+        Parameters
+        ----------
+        state : State
+            The state whose chord would be extended.
+        range_end : int
+            The index up to which the chord would be extended.
+
+        Returns
+        -------
+        can_rejoin : bool
+            False if a chord or a key change is forced at the end of the given state, or if
+            the extended range would contain inputs which are forced to different keys.
+        """
+        if (
+            state.change_index in self.forced_chord_changes
+            or state.change_index in self.forced_key_changes
+        ):
+            return False
+
+        forced_key_ids = set(self.forced_key_ids[state.prev_state.change_index : range_end])
+        return len(forced_key_ids - {-1}) <= 1
+
     def get_key_change_probs(self, states: List[State], hidden_only: bool = False) -> np.array:
         """
         Get the probability of a key change for each of the given states.
-- 
2.43.0


From 9a87ba5fa472cde9f10f382c39a1307ee95a1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 30/43] fix: verbose logging never makes decoding fail

---
 harmonic_inference/models/joint_model.py | 25 +++++++++++++++++---
 harmonic_inference/utils/eval_utils.py   | 30 ++++++++++++++----------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 8aceca1..a77668c 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1427,6 +1427,25 @@ class HarmonicInferenceModel:
             state.csm_hidden_state = (hidden, cell)
 
 
+def get_ratio(numerator: int, denominator: int) -> float:
+    """
+    Get the ratio between two counts, for logging.
+
+    Parameters
+    ----------
+    numerator : int
+        The numerator.
+    denominator : int
+        The denominator.
+
+    Returns
+    -------
+    ratio : float
+        numerator / denominator. nan if the denominator is 0.
+    """
+    return numerator / denominator if denominator != 0 else float("nan")
+
+
 class DebugLogger:
     """
     A DebugLogger will print debug messages for various model outputs.
@@ -1980,13 +1999,13 @@ class DebugLogger:
                 "    Change: %s / %s = %s",
                 change_correct,
                 change_total,
-                change_correct / change_total,
+                get_ratio(change_correct, change_total),
             )
             logging.debug(
                 "    No change: %s / %s = %s",
                 no_change_correct,
                 no_change_total,
-                no_change_correct / no_change_total,
+                get_ratio(no_change_correct, no_change_total),
             )
 
     def debug_chord_classifications(
@@ -2089,7 +2108,7 @@ class DebugLogger:
                 "    correct_chords / correct_ranges: %s / %s = %s",
                 num_correct_chords,
                 num_correct_ranges,
-                num_correct_chords / num_correct_ranges,
+                get_ratio(num_correct_chords, num_correct_ranges),
             )
 
     def debug_initial_chord_prior(self, icm_prior: List[float]):
diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 30ba8dd..118c45d 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -991,28 +991,32 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     tonic_type : PitchType
         The pitch type used for the key tonics.
     """
-    gt_chords = piece.get_chords()
-    gt_changes = piece.get_chord_change_indices()
+    has_gt = piece.get_chords() is not None
+
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+    if has_gt:
+        gt_chords = piece.get_chords()
+        gt_changes = piece.get_chord_change_indices()
+        for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
+            gt_chord_labels[start:end] = chord.get_one_hot_index(
+                relative=False, use_inversion=True, pad=False
+            )
+        gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
-    )
 
     chords, changes = state.get_chords()
     est_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         est_chord_labels[start:end] = chord
 
-    gt_keys = piece.get_keys()
-    gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+    if has_gt:
+        gt_keys = piece.get_keys()
+        gt_changes = piece.get_key_change_input_indices()
+        for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
+            gt_key_labels[start:end] = key.get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
 
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -1054,5 +1058,5 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
 
         logging.debug("%s - %s (duration %s):", input_start, input_end, duration)
         logging.debug("    Estimated structure: %s\t%s", est_key_label, est_chord_label)
-        if gt_key_label != est_key_label or gt_chord_label != est_chord_label:
+        if has_gt and (gt_key_label != est_key_label or gt_chord_label != est_chord_label):
             logging.debug("      Correct structure: %s\t%s", gt_key_label, gt_chord_label)
-- 
2.43.0


From b8553a7b3efaf797bce37f62aa9c0b0c62fa9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:53 +0000
Subject: [PATCH 31/43] fix: annotations of different pieces never end up in
 the same file

---
 annotate.py | 4 ++--
 test.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/annotate.py b/annotate.py
index c0784f8..7cff2fa 100644
--- a/annotate.py
+++ b/annotate.py
@@ -170,8 +170,8 @@ def annotate(
             )
 
             if piece.name is not None and output_tsv_dir is not None:
-                piece_name = Path(piece.name.split(" ")[-1])
-                output_tsv_path = output_tsv_dir / (piece_name.stem + ".tsv")
+                piece_name = Path(piece.name.split(": ", 1)[-1])
+                output_tsv_path = output_tsv_dir / piece_name.with_suffix(".tsv")
 
                 try:
                     output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
diff --git a/test.py b/test.py
index ab8717b..4624487 100755
--- a/test.py
+++ b/test.py
@@ -323,8 +323,8 @@ def evaluate(
         )
 
         if piece.name is not None and output_tsv_dir is not None:
-            piece_name = Path(piece.name.split(" ")[-1])
-            output_tsv_path = output_tsv_dir / piece_name
+            piece_name = Path(piece.name.split(": ", 1)[-1])
+            output_tsv_path = output_tsv_dir / piece_name.with_suffix(".tsv")
 
             try:
                 output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 1835560b31bcebb74c9b80170a1efe744ffc56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:53 +0000
Subject: [PATCH 32/43] fix: an output tsv which could not be written
 completely is reported and not left behind

---
 annotate.py                            |  2 +-
 harmonic_inference/utils/eval_utils.py | 23 +++++++++++++++++++++++
 test.py                                |  6 +++---
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/annotate.py b/annotate.py
index 7cff2fa..179aa5d 100644
--- a/annotate.py
+++ b/annotate.py
@@ -175,7 +175,7 @@ def annotate(
 
                 try:
                     output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-                    annotation_df.to_csv(output_tsv_path, sep="\t")
+                    eu.write_tsv(annotation_df, output_tsv_path)
                     logging.info("Labels TSV written out to %s", output_tsv_path)
                 except Exception:
                     logging.exception("Error writing to csv %s", output_tsv_path)
diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 118c45d..b7b19f5 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -1,5 +1,6 @@
 """Utility functions for evaluating model outputs."""
 import logging
+import os
 import re
 from collections import defaultdict
 from pathlib import Path
@@ -938,6 +939,28 @@ def write_labels_to_score(
     parse.store_mscx(root_dir=labels_dir, suffix="_inferred", overwrite=True)
 
 
+def write_tsv(df: pd.DataFrame, path: Union[Path, str]):
+    """
+    Write a data frame to a tsv file, such that the file is only ever there completely.
+
+    Parameters
+    ----------
+    df : pd.DataFrame
+        The data frame to write.
+    path : Union[Path, str]
+        The path of the tsv file to write it to.
+    """
+    temp_path = Path(f"{path}.tmp")
+
+    try:
+        with open(temp_path, "w", encoding="utf-8", newline="") as file:
+            df.to_csv(file, sep="\t")
+        os.replace(temp_path, path)
+    finally:
+        if temp_path.exists():
+            temp_path.unlink()
+
+
 def average_results(results_path: Union[Path, str], split_on: str = " = ") -> Dict[str, float]:
     """
     Average accuracy values from a file.
diff --git a/test.py b/test.py
index 4624487..91daadb 100755
--- a/test.py
+++ b/test.py
@@ -331,7 +331,7 @@ def evaluate(
                 results_tsv_path = output_tsv_path.parent / (
                     output_tsv_path.name[:-4] + "_results.tsv"
                 )
-                results_df.to_csv(results_tsv_path, sep="\t")
+                eu.write_tsv(results_df, results_tsv_path)
                 logging.info("Results TSV written out to %s", results_tsv_path)
             except Exception:
                 logging.exception("Error writing to csv %s", results_tsv_path)
@@ -342,7 +342,7 @@ def evaluate(
                 results_tsv_path = output_tsv_path.parent / (
                     output_tsv_path.name[:-4] + "_results_midi.tsv"
                 )
-                results_midi_df.to_csv(results_tsv_path, sep="\t")
+                eu.write_tsv(results_midi_df, results_tsv_path)
                 logging.info("MIDI results TSV written out to %s", results_tsv_path)
             except Exception:
                 logging.exception("Error writing to csv %s", results_tsv_path)
@@ -350,7 +350,7 @@ def evaluate(
 
             try:
                 output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-                labels_df.to_csv(output_tsv_path, sep="\t")
+                eu.write_tsv(labels_df, output_tsv_path)
                 logging.info("Labels TSV written out to %s", output_tsv_path)
             except Exception:
                 logging.exception("Error writing to csv %s", output_tsv_path)
-- 
2.43.0


From 306b87fd98d35b013a19ac06f3d8c72d31ca0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:53 +0000
Subject: [PATCH 33/43] fix: --defaults and --fh-defaults are used by
 annotate.py

---
 annotate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotate.py b/annotate.py
index 179aa5d..78ae636 100644
--- a/annotate.py
+++ b/annotate.py
@@ -320,6 +320,8 @@ if __name__ == "__main__":
         filemode="w",
     )
 
+    set_default_args(ARGS)
+
     # Load models
     models = load_models_from_argparse(ARGS)
 
-- 
2.43.0


From c92dc56e74f965d92ecbc27f1f86b9d2cc535ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:53 +0000
Subject: [PATCH 34/43] fix: the last line of a log which was cut off is not
 averaged

---
 harmonic_inference/utils/eval_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index b7b19f5..ae80d7c 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -981,6 +981,11 @@ def average_results(results_path: Union[Path, str], split_on: str = " = ") -> Di
 
     with open(results_path, "r") as results_file:
         for line in results_file:
+            if not line.endswith("\n"):
+                # The log was cut off within this line: its value may be incomplete
+                logging.warning("Ignoring incomplete last line of %s", results_path)
+                continue
+
             if split_on not in line:
                 continue
 
-- 
2.43.0


From a0718c1bcde0e321f527ae2f215909ac32121fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:47 +0000
Subject: [PATCH 35/43] fix: notes of a MusicXML pick-up measure end where they
 end

---
 harmonic_inference/data/note.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index d1c8402..0297c99 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -473,13 +473,13 @@ class Note:
 
         # Find the offset measure
         offset_measure = onset_measure
-        tmp_duration = note_duration + note_start - onset_measure[MEASURE_OFFSET]
+        tmp_duration = note_duration + note_start
         while tmp_duration >= offset_measure["act_dur"] and not pd.isna(offset_measure["next"]):
             tmp_duration -= offset_measure["act_dur"]
             offset_measure = measures_df.loc[measures_df["mc"] == offset_measure["next"]].iloc[0]
 
         onset_beat = note_start
-        offset_beat = tmp_duration + offset_measure[MEASURE_OFFSET]
+        offset_beat = tmp_duration
 
         onset_beat += onset_measure[MEASURE_OFFSET]
         offset_beat += offset_measure[MEASURE_OFFSET]
-- 
2.43.0


From a83020e07132c74ec22a1f18792aebdcb632294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:47 +0000
Subject: [PATCH 36/43] fix: key sequence model evaluation weights batches by
 their items

---
 harmonic_inference/models/key_sequence_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/key_sequence_models.py b/harmonic_inference/models/key_sequence_models.py
index 11f8871..3293c8e 100755
--- a/harmonic_inference/models/key_sequence_models.py
+++ b/harmonic_inference/models/key_sequence_models.py
@@ -128,7 +128,7 @@ class KeySequenceModel(pl.LightningModule, ABC):
 
             outputs, _ = self(inputs, input_lengths)
 
-            batch_count = len(batch)
+            batch_count = len(targets)
             loss = F.nll_loss(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From e8ce0178e1f7b28bb16f0e8ee1ae1dbc30e2210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:47 +0000
Subject: [PATCH 37/43] fix: a batch without targets no longer turns evaluation
 results into NaN

---
 harmonic_inference/models/chord_sequence_models.py   | 4 ++++
 harmonic_inference/models/chord_transition_models.py | 4 ++++
 harmonic_inference/models/key_transition_models.py   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index 21a9b93..9670cb5 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -152,6 +152,10 @@ class ChordSequenceModel(pl.LightningModule, ABC):
             outputs = outputs.argmax(-1).reshape(-1)[mask]
             targets = targets[mask]
             batch_count = len(targets)
+            if batch_count == 0:
+                # No targets in this batch: its averages are undefined
+                continue
+
             acc = 100 * (outputs == targets).sum().float() / len(targets)
 
             total += batch_count
diff --git a/harmonic_inference/models/chord_transition_models.py b/harmonic_inference/models/chord_transition_models.py
index 61a1536..1dca2ed 100755
--- a/harmonic_inference/models/chord_transition_models.py
+++ b/harmonic_inference/models/chord_transition_models.py
@@ -121,6 +121,10 @@ class ChordTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                # No targets in this batch: its averages are undefined
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets.float())
             acc = 100 * (outputs.round() == targets).sum().float() / len(outputs)
 
diff --git a/harmonic_inference/models/key_transition_models.py b/harmonic_inference/models/key_transition_models.py
index 9655285..4f2a4b7 100755
--- a/harmonic_inference/models/key_transition_models.py
+++ b/harmonic_inference/models/key_transition_models.py
@@ -130,6 +130,10 @@ class KeyTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                # No targets in this batch: its averages are undefined
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets)
             acc = 100 * (outputs.round().long() == targets).sum().float() / len(outputs)
 
-- 
2.43.0


From 6b21ebdbd6c7cb2542a7ba316821ed263731500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:47 +0000
Subject: [PATCH 38/43] fix: labels are written onto the score with exactly
 their name

---
 harmonic_inference/utils/eval_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index ae80d7c..e2fe1c1 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -924,7 +924,7 @@ def write_labels_to_score(
         annotations_dir = str(annotations_dir)
 
     # Add musescore and tsv suffixes to filename match
-    filename_regex = re.compile(basename + "\\.(mscx|tsv)")
+    filename_regex = re.compile("^" + re.escape(basename) + "\\.(mscx|tsv)$")
 
     # Parse scores and tsvs
     parse = Parse(annotations_dir, file_re=filename_regex)
-- 
2.43.0


From f477c071c797f97e61a7965cb8399976abe7f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:37 +0000
Subject: [PATCH 39/43] fix: a piece whose name contains that of another one
 gets its own forced labels

---
 test.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/test.py b/test.py
index 91daadb..3a11821 100755
--- a/test.py
+++ b/test.py
@@ -215,7 +215,8 @@ def evaluate(
         # Load forces dict for this file
         forces_dict = None
         if piece.name is not None:
-            for key in set(all_forces_dict.keys()) - set(["default"]):
+            # Check longest keys first, since a piece's name may also contain that of another
+            for key in sorted(set(all_forces_dict.keys()) - set(["default"]), key=len)[::-1]:
                 if key in piece.name:
                     logging.info("Using forces with key %s", key)
                     forces_dict = all_forces_dict[key]
-- 
2.43.0


From 6ec71089b13c1327113a99b01ee987b35b2ca9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:16 +0000
Subject: [PATCH 40/43] fix: a piece without annotations no longer stops the
 evaluation of all others

---
 harmonic_inference/utils/eval_utils.py |  4 +-
 test.py                                | 81 +++++++++++++-------------
 2 files changed, 44 insertions(+), 41 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index e2fe1c1..20067ba 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -743,7 +743,7 @@ def get_label_df(
     labels_list = []
 
     gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_chords()) > 0:
+    if piece.get_chords() is not None and len(piece.get_chords()) > 0:
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
@@ -760,7 +760,7 @@ def get_label_df(
         estimated_chord_labels[start:end] = chord
 
     gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_keys()) > 0:
+    if piece.get_keys() is not None and len(piece.get_keys()) > 0:
         gt_keys = piece.get_keys()
         gt_changes = piece.get_key_change_input_indices()
         gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
diff --git a/test.py b/test.py
index 3a11821..b9120ab 100755
--- a/test.py
+++ b/test.py
@@ -303,51 +303,54 @@ def evaluate(
             model.KEY_OUTPUT_TYPE,
         )
 
-        # Write outputs tsv
-        results_df = eu.get_results_df(
-            piece,
-            state,
-            model.CHORD_OUTPUT_TYPE,
-            model.KEY_OUTPUT_TYPE,
-            PitchType.TPC,
-            PitchType.TPC,
-        )
+        # There is nothing to compare with if the ground truth is unknown
+        if piece.get_chords() is not None:
+            # Write outputs tsv
+            results_df = eu.get_results_df(
+                piece,
+                state,
+                model.CHORD_OUTPUT_TYPE,
+                model.KEY_OUTPUT_TYPE,
+                PitchType.TPC,
+                PitchType.TPC,
+            )
 
-        # Write MIDI outputs for SPS chord-eval testing
-        results_midi_df = eu.get_results_df(
-            piece,
-            state,
-            model.CHORD_OUTPUT_TYPE,
-            model.KEY_OUTPUT_TYPE,
-            PitchType.MIDI,
-            PitchType.MIDI,
-        )
+            # Write MIDI outputs for SPS chord-eval testing
+            results_midi_df = eu.get_results_df(
+                piece,
+                state,
+                model.CHORD_OUTPUT_TYPE,
+                model.KEY_OUTPUT_TYPE,
+                PitchType.MIDI,
+                PitchType.MIDI,
+            )
 
         if piece.name is not None and output_tsv_dir is not None:
             piece_name = Path(piece.name.split(": ", 1)[-1])
             output_tsv_path = output_tsv_dir / piece_name.with_suffix(".tsv")
 
-            try:
-                output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-                results_tsv_path = output_tsv_path.parent / (
-                    output_tsv_path.name[:-4] + "_results.tsv"
-                )
-                eu.write_tsv(results_df, results_tsv_path)
-                logging.info("Results TSV written out to %s", results_tsv_path)
-            except Exception:
-                logging.exception("Error writing to csv %s", results_tsv_path)
-                logging.debug(results_df)
-
-            try:
-                output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-                results_tsv_path = output_tsv_path.parent / (
-                    output_tsv_path.name[:-4] + "_results_midi.tsv"
-                )
-                eu.write_tsv(results_midi_df, results_tsv_path)
-                logging.info("MIDI results TSV written out to %s", results_tsv_path)
-            except Exception:
-                logging.exception("Error writing to csv %s", results_tsv_path)
-                logging.debug(results_midi_df)
+            if piece.get_chords() is not None:
+                try:
+                    output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
+                    results_tsv_path = output_tsv_path.parent / (
+                        output_tsv_path.name[:-4] + "_results.tsv"
+                    )
+                    eu.write_tsv(results_df, results_tsv_path)
+                    logging.info("Results TSV written out to %s", results_tsv_path)
+                except Exception:
+                    logging.exception("Error writing to csv %s", results_tsv_path)
+                    logging.debug(results_df)
+
+                try:
+                    output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
+                    results_tsv_path = output_tsv_path.parent / (
+                        output_tsv_path.name[:-4] + "_results_midi.tsv"
+                    )
+                    eu.write_tsv(results_midi_df, results_tsv_path)
+                    logging.info("MIDI results TSV written out to %s", results_tsv_path)
+                except Exception:
+                    logging.exception("Error writing to csv %s", results_tsv_path)
+                    logging.debug(results_midi_df)
 
             try:
                 output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 5b44d250fc9fbd10197d91a0b91d11e625240bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 41/43] fix: forced labels which the search parameters cannot
 obey give no answer instead of an error

---
 harmonic_inference/models/joint_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index a77668c..4a2f620 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -613,6 +613,11 @@ class HarmonicInferenceModel:
         logging.info("Calculating valid chord ranges")
         chord_ranges, range_log_probs, rejoin_log_probs = self.get_chord_ranges(change_probs)
 
+        if len(chord_ranges) == 0:
+            # The forced labels require a change where the search parameters don't allow one
+            self.current_piece = None
+            return None
+
         # Convert range starting points to new starts based on the note offsets
         chord_change_indices = [start for start, _ in chord_ranges]
         chord_windows = [
-- 
2.43.0


From 28de3f3ef4e5849a6c1777cdcf7cd2d1993860f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:46 +0000
Subject: [PATCH 42/43] fix: the commands of a grid search keep paths with
 spaces together

---
 grid_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grid_search.py b/grid_search.py
index 4ddfb2f..68f76d7 100644
--- a/grid_search.py
+++ b/grid_search.py
@@ -1,6 +1,7 @@
 import argparse
 import itertools
 import os
+import shlex
 from pathlib import Path
 
 from harmonic_inference.models.joint_model import MODEL_CLASSES, add_joint_model_args
@@ -205,4 +206,4 @@ if __name__ == "__main__":
             this_args.append(f"--{name.replace('_', '-')}")
             this_args.append(str(val))
 
-        print(f"python test.py {' '.join(this_args)}")
+        print(f"python test.py {shlex.join(this_args)}")
-- 
2.43.0


From ab9a9fba8debd579145c4f871b90903a1ac1a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:35 +0000
Subject: [PATCH 43/43] fix: a data set whose padding failed can be padded and
 saved again

---
 harmonic_inference/data/datasets.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 10b6afb..f7d572a 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -239,17 +239,20 @@ class HarmonicDataset(Dataset):
         if self.padded:
             return
 
+        # Set all fields at once, since padding a padded array again would lose its lengths
+        fields = {"padded": True}
+
         if self.pad_targets:
-            self.targets, target_lengths = pad_array(self.targets)
+            fields["targets"], target_lengths = pad_array(self.targets)
             if self.save_padded_target_lengths:
-                self.target_lengths = target_lengths
+                fields["target_lengths"] = target_lengths
 
         if self.pad_inputs:
-            self.inputs, input_lengths = pad_array(self.inputs)
+            fields["inputs"], input_lengths = pad_array(self.inputs)
             if self.save_padded_input_lengths:
-                self.input_lengths = input_lengths
+                fields["input_lengths"] = input_lengths
 
-        self.padded = True
+        self.__dict__.update(fields)
 
     def to_h5(self, h5_path: Union[str, Path], file_ids: Iterable[int] = None):
         """
-- 
2.43.0

