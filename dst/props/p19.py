"""P19: beams keep exactly the best hypotheses, and every hypothesis keeps its own history."""
from dst.common import ASSUME_PY
from dst.kernel import Invalid
from dst.proc import probe

PROPERTY = "P19"
BUDGET = {
    "quick": {"runs": 700, "wall_s": 300},
    "thorough": {"runs": 60000, "wall_s": 3300},
}
RULE = (
    "one run = either two beams receiving an interleaved seeded history of 5-60 offers (forced or not, with "
    "ties, -inf, equal hashes), fit queries and emptyings, or a tree of 3-25 hypotheses grown by chord "
    "transitions, key transitions, rejoins, copies and model probabilities in seeded order (sometimes one "
    "chain of over a thousand chords), or both; after every step each beam and every hypothesis alive is "
    "compared with a plain list; non-trivial = a hypothesis was evicted, replaced or rejected, or one "
    "hypothesis was continued more than once"
)
REAL = ["State", "Beam", "HashedBeam", "Chord and Key vectors", "harmonic_utils"]
STUBS = ["hidden states of the neural networks: opaque numbered tokens"]
ASSUMPTIONS = [ASSUME_PY, "which of several equally probable hypotheses is evicted is left open"]
INF = float("inf")


class Token:
    """A hidden state: can be compared, copied and nothing else."""

    def __init__(self, number):
        self.number = number

    def equal(self, other):
        return self.number == other.number


def hidden(number):
    return None if number is None else (Token(number), Token(-number))


def number_of(value):
    return None if value is None else value[0].number


def generate(rng, tier, index):
    plan = {"beams": None, "tree": None}
    which = rng.choice(["beams", "tree", "both"])
    if which != "tree":
        ops = []
        for _ in range(rng.randint(5, 60)):
            ops.append([rng.choice(["add"] * 8 + ["force", "fits", "fits", "fits", "empty"])
                        if rng.random() < 0.97 else "empty",
                        rng.randrange(2), rng.choice([rng.randrange(40), rng.randrange(6), 99]),
                        rng.randrange(rng.choice([3, 8, 20])), rng.randrange(2)])
        plan["beams"] = {"sizes": [rng.randint(1, 6), rng.randint(1, 6)],
                         "hashed": [rng.randrange(2), rng.randrange(2)], "ops": ops}
    if which != "beams":
        ops = []
        for _ in range(rng.randint(3, 25)):
            ops.append([rng.choice(["chord"] * 5 + ["key", "key", "rejoin", "rejoin", "ktm", "csm", "copy",
                                                    "hidden", "read", "scribble"]),
                        rng.choice([rng.randrange(32), -1, -1]), rng.randrange(1 << 12), rng.randrange(1, 9),
                        rng.randrange(1, 50)])
        plan["tree"] = {"hash": rng.choice([None, 1, 2, 3, 5]), "key": rng.randrange(64), "ops": ops,
                        "long": 1500 if rng.random() < 0.02 else 0}
    return plan


# -- beams ---------------------------------------------------------------------------------
class RefBeam:
    def __init__(self, size, hashed):
        self.size, self.hashed, self.items = size, hashed, []

    def verdict(self, lp, slot, check_hash=True):
        """True if an offer would be kept."""
        if self.hashed and check_hash:
            for item in self.items:
                if item[1] == slot:
                    return lp > item[0]
        return len(self.items) < self.size or min(i[0] for i in self.items) < lp

    def add(self, item, force):
        lp, slot = item[:2]
        if self.hashed:
            for old in self.items:
                if old[1] == slot:
                    if lp > old[0]:
                        self.items.remove(old)
                        self.items.append(item)
                        return True
                    return False
        if force or len(self.items) < self.size:
            self.items.append(item)
            return True
        worst = min(i[0] for i in self.items)
        if worst < lp:
            self.items.remove(next(i for i in self.items if i[0] == worst))
            self.items.append(item)
            return True
        return False


def run_beams(plan):
    from harmonic_inference.utils.beam_search_utils import Beam, HashedBeam, State

    beams, refs = [], []
    for size, hashed in zip(plan["sizes"], plan["hashed"]):
        beams.append(HashedBeam(size) if hashed else Beam(size))
        refs.append(RefBeam(size, bool(hashed)))
    for number, (kind, which, level, slot, flag) in enumerate(plan["ops"]):
        beam, ref = beams[which % 2], refs[which % 2]
        if kind == "empty":
            beam.empty()
            ref.items = []
        else:
            # ties only where the outcome is determined
            lp = -INF if level == 99 else -float(level) + (slot * 1e-3 if ref.hashed else 0)
            if level == 99 and ref.hashed:
                lp = -1e6 + slot * 1e-3
            state = State(chord=slot, key=0, log_prob=lp, hash_length=1 if ref.hashed or flag else None)
            want = ref.verdict(lp, slot, bool(flag))
            if kind == "fits":
                got = beam.fits_in_beam(state, check_hash=bool(flag))
            else:
                if kind == "force":
                    probe("forced_into_beam")
                got = beam.add(state, force=kind == "force")
                want = ref.add((lp, slot), kind == "force")
                if not want:
                    probe("offer_rejected")
            if bool(got) != want:
                return f"step {number} {kind} {lp} (hash {slot}): {got} instead of {want}"
        have = sorted((s.log_prob, s.chord) for s in beam)
        wanted = sorted(ref.items)
        if not ref.hashed:
            have, wanted = [h[0] for h in have], [w[0] for w in wanted]
        if have != wanted or len(beam) != len(wanted):
            return (f"step {number} {kind}: beam of {ref.size} (hashed={ref.hashed}) holds {have} "
                    f"(length {len(beam)}) instead of {wanted}")
        if len({id(s) for s in beam}) != len(wanted):
            return f"step {number} {kind}: a state is in the beam twice"
        top = beam.get_top_state()
        if (top.log_prob if top is not None else None) != (max(i[0] for i in ref.items) if ref.items else None):
            return f"step {number} {kind}: top state is {top and top.log_prob}, beam {wanted}"
        if len(ref.items) > 1:
            probe("beam_with_several")
        if ref.items and beam.beam[0].log_prob != min(i[0] for i in ref.items):
            return f"step {number} {kind}: worst state is {beam.beam[0].log_prob}, beam {wanted}"
    return None


# -- hypotheses ----------------------------------------------------------------------------
def world():
    from harmonic_inference.data.data_types import PitchType
    from harmonic_inference.utils import harmonic_utils as hu

    labels = {"chord": hu.get_chord_from_one_hot_index(slice(None, None), PitchType.TPC),
              "key": hu.get_key_from_one_hot_index(slice(None, None), PitchType.TPC)}
    return labels


def run_tree(plan):
    from fractions import Fraction

    import numpy as np

    from harmonic_inference.data.chord import get_chord_vector_length
    from harmonic_inference.data.data_types import TRIAD_REDUCTION, ChordType, PitchType
    from harmonic_inference.utils import harmonic_constants as hc
    from harmonic_inference.utils import harmonic_utils as hu
    from harmonic_inference.utils.beam_search_utils import State

    tpc = PitchType.TPC
    labels = world()
    usual = [i for i, (root, kind, _) in enumerate(labels["chord"])
             if 11 <= root <= 20 and kind in (ChordType.MAJOR, ChordType.MINOR, ChordType.MAJ_MIN7,
                                              ChordType.DIM7, ChordType.MAJOR)]
    usual_keys = [i for i, (tonic, _) in enumerate(labels["key"]) if 10 <= tonic <= 21]
    count = 4000
    durations = np.array([Fraction(1 + i % 3, 4) for i in range(count)])
    onsets = [(i // 4, Fraction(i % 4, 4)) for i in range(count + 1)]
    levels = [i % 4 for i in range(count + 1)]
    caches = (tpc, durations, onsets, levels, labels)
    width = get_chord_vector_length(tpc, one_hot=True, relative=True, use_inversions=True, pad=False)

    def prior(seed):
        return -np.array([(seed * 7 + i * 13) % 101 + 1 for i in range(width)], dtype=float) / 8

    root_key = usual_keys[plan["key"] % len(usual_keys)]
    start = State(key=root_key, hash_length=plan["hash"])
    start.csm_log_prior = prior(0)
    # one record per state: its path and everything it should say
    records = [{"state": start, "path": [], "lp": 0.0, "prev": None, "key": root_key, "chord": None, "end": 0,
                "csm": None, "ksm": None, "ktm": None, "prior": 0, "must": False,
                "hid": [None, None, None], "kids": 0}]

    def bass_of(chord):
        root, kind, inversion = labels["chord"][chord]
        try:
            return root, hu.get_bass_note(kind, root, inversion, tpc)
        except ValueError:
            return root, None

    def fits(chord, key, extra=0):
        root, bass = bass_of(chord)
        if bass is None:
            return False
        tonic = labels["key"][key][0]
        low, high = hc.MIN_RELATIVE_TPC - extra, hc.MAX_RELATIVE_TPC + extra
        return all(low <= p - tonic < high for p in (root, bass))

    def hash_of(rec):
        chain = []
        while rec is not None:
            chain.append((rec["key"], rec["chord"]))
            rec = rec["prev"]
        chain = chain[::-1]
        return tuple(([None] * plan["hash"] + chain)[-plan["hash"]:])

    def verify(rec, where):
        state = rec["state"]
        path, node = [], rec
        while node["prev"] is not None:
            path.append(node)
            node = node["prev"]
        path = path[::-1]
        chords, changes = state.get_chords()
        if list(chords) != [p["chord"] for p in path] or list(changes) != [0] + [p["end"] for p in path]:
            return (f"{where}: chords {list(chords)[-8:]} at {list(changes)[-8:]} instead of "
                    f"{[p['chord'] for p in path][-8:]} at {[p['end'] for p in path][-8:]}")
        keys, ends = [], [0]
        for node in path:
            if not keys or node["key"] != keys[-1]:
                keys.append(node["key"])
                ends.append(node["end"])
            else:
                ends[-1] = node["end"]
        got = state.get_keys()
        if list(got[0]) != keys or list(got[1]) != ends:
            return f"{where}: keys {got} instead of {keys, ends}"
        if state.log_prob != rec["lp"] and abs(state.log_prob - rec["lp"]) > 1e-6 * max(1, abs(rec["lp"])):
            return f"{where}: log-probability {state.log_prob} instead of {rec['lp']}"
        if state.key != rec["key"] or state.chord != rec["chord"] or state.change_index != rec["end"]:
            return f"{where}: {state.chord, state.key, state.change_index}"
        if bool(state.is_valid(check_key=True)) != (not rec["must"]) or not state.is_valid():
            return f"{where}: valid without a key change: {state.is_valid(check_key=True)}"
        if plan["hash"] is not None and tuple(state.get_hash()) != hash_of(rec):
            return f"{where}: hash {state.get_hash()} instead of {hash_of(rec)}"
        if bool(state.can_key_transition()) != (len(path) >= 2):
            return f"{where}: can change key: {state.can_key_transition()} after {len(path)} chords"
        hid = [number_of(h) for h in (state.csm_hidden_state, state.ktm_hidden_state, state.ksm_hidden_state)]
        if hid != rec["hid"]:
            return f"{where}: hidden states {hid} instead of {rec['hid']}"
        if not np.array_equal(state.csm_log_prior, prior(rec["prior"])):
            return f"{where}: wrong chord prior"
        key = state.get_key(tpc, labels)
        tonic, mode = labels["key"][rec["key"]]
        first = labels["key"][root_key]
        if (key.relative_tonic, key.relative_mode, key.global_tonic, key.global_mode) != (
                tonic, mode, first[0], first[1]):
            return f"{where}: key {key} instead of {tonic, mode} in {first}"
        return None

    def read(rec, where):
        """The inputs of the models for this state."""
        state = rec["state"]
        if rec["prev"] is None or rec["must"]:
            return None
        chord = state.get_chord(*caches)
        root, kind, inversion = labels["chord"][rec["chord"]]
        tonic = labels["key"][rec["key"]][0]
        begin = rec["prev"]["end"]
        want = (root, bass_of(rec["chord"])[1], kind, inversion, onsets[begin], onsets[rec["end"]],
                sum(durations[begin:rec["end"]]), levels[begin], levels[rec["end"]], tonic)
        got = (chord.root, chord.bass, chord.chord_type, chord.inversion, chord.onset, chord.offset,
               chord.duration, chord.onset_level, chord.offset_level, chord.key_tonic)
        if got != want:
            return f"{where}: chord {got} instead of {want}"
        relative = hu.get_chord_one_hot_index(kind, root - tonic - hc.MIN_RELATIVE_TPC, tpc,
                                              inversion=inversion, relative=True, pad=False)
        index = state.get_relative_chord_index(*caches)
        if index != relative:
            return f"{where}: relative chord {index} instead of {relative}"
        ktm = state.get_ktm_input(*caches)[0]
        changed = rec["prev"]["key"] != rec["key"]
        vector = chord.to_vec(pad=True)
        if not np.array_equal(ktm[: len(vector)], vector) or bool(ktm[-1]) != changed:
            return f"{where}: key transition input does not describe this chord"
        csm = state.get_csm_input(*caches)[0]
        vector = chord.to_vec(pad=False)
        if not np.array_equal(csm[: len(vector)], vector) or bool(csm[-1]) != changed:
            return f"{where}: chord sequence input does not describe this chord"
        change = csm[len(vector):-1]
        wanted = np.zeros(len(change))
        if changed:
            step = labels["key"][rec["prev"]["key"]][0]
            wanted[tonic - step - hc.MIN_KEY_CHANGE_INTERVAL_TPC] = 1
            wanted[-2 + labels["key"][rec["key"]][1].value] = 1
        for got in (change, ktm[-1 - len(change):-1]):
            if not np.array_equal(got, wanted):
                return f"{where}: key change vector {np.nonzero(got)[0]} instead of {np.nonzero(wanted)[0]}"
        chain, node = [], rec
        while node["prev"] is not None:
            chain.append(node)
            node = node["prev"]
        rows = [rec]
        for one in chain[1:]:
            if one["hid"][2] != one["prev"]["hid"][2]:
                break
            rows.append(one)
        if any(row["must"] for row in rows):
            return None
        ksm = state.get_ksm_input(*caches)
        if len(ksm) != len(rows) or any(
            not np.array_equal(got, row["state"].get_ktm_input(*caches)[0])
            for got, row in zip(ksm, rows[::-1])
        ):
            return f"{where}: key sequence input has {len(ksm)} rows instead of {len(rows)}, or other chords"
        return None

    def child(parent, state, **kw):
        rec = dict(parent, state=state, kids=0, hid=list(parent["hid"]))
        rec.update(kw)
        parent["kids"] += 1
        if parent["kids"] == 2:
            probe("continued_twice")
        records.append(rec)
        return rec

    ops = list(plan["ops"])
    for number in range(plan["long"]):
        ops.insert(0, ["chord", -1, 7 + number % 2, 1, 3])
    live = plan["long"]
    for number, (kind, which, value, step, cost) in enumerate(ops):
        parent = records[which % len(records)] if which >= 0 else records[-1]
        state, lp = parent["state"], -cost / 8
        where = f"step {number} {kind}"
        made = None
        if kind == "chord" and parent["end"] + step < count:
            chord = usual[value % len(usual)] if value % 5 else value % len(labels["chord"])
            if chord == parent["chord"]:
                continue
            made = state.chord_transition(chord, parent["end"] + step, lp, tpc, labels)
            allowed = fits(chord, parent["key"], hc.RELATIVE_TPC_EXTRA)
            if (made is not None) != allowed:
                return f"{where}: chord {labels['chord'][chord]} in key {labels['key'][parent['key']]}: {made}"
            if made is None:
                probe("transition_refused")
                continue
            rec = child(parent, made, prev=parent, chord=chord, end=parent["end"] + step,
                        lp=parent["lp"] + lp, csm=None, ksm=None, ktm=None,
                        must=not fits(chord, parent["key"]))
        elif kind == "key" and parent["prev"] is not None:
            key = usual_keys[value % len(usual_keys)]
            if key == parent["key"] or not abs(labels["key"][key][0] - labels["key"][parent["key"]][0]) < 12:
                continue
            if abs(labels["key"][key][0] - labels["key"][parent["prev"]["key"]][0]) >= 12:
                continue
            made = state.key_transition(key, lp, tpc, labels)
            if (made is not None) != fits(parent["chord"], key):
                return f"{where}: chord {labels['chord'][parent['chord']]} to key {labels['key'][key]}: {made}"
            if made is None:
                probe("transition_refused")
                continue
            rec = child(parent, made, key=key, lp=parent["lp"] + lp, ksm=lp, must=False,
                        hid=[parent["hid"][0], parent["prev"]["hid"][1], parent["prev"]["hid"][2]])
        elif kind == "rejoin" and parent["prev"] is not None and parent["end"] + step < count:
            made = state.rejoin(parent["end"] + step, lp, tpc, labels)
            before = parent["prev"]
            paid = sum(x for x in (parent["csm"], parent["ksm"], parent["ktm"]) if x is not None)
            rec = child(parent, made, key=before["key"], end=parent["end"] + step, csm=None, ksm=None, ktm=None,
                        lp=parent["lp"] + lp - paid, hid=list(before["hid"]), prior=before["prior"],
                        must=not fits(parent["chord"], before["key"]))
            probe("rejoined")
        elif kind == "copy" and parent["prev"] is not None and all(
                parent[k] is None for k in ("csm", "ksm", "ktm")):
            made = state.copy()
            rec = child(parent, made)
        elif kind == "ktm" and parent["kids"] == 0 and parent["prev"] is not None and parent["ktm"] is None:
            state.add_ktm_log_prob(lp)
            parent["lp"] += lp
            parent["ktm"] = lp
        elif kind == "csm" and parent["kids"] == 0 and parent["prev"] is not None and not parent["must"] \
                and parent["csm"] is None:
            # the prior after the first chord may be one over fewer chords
            inversions, reduction = ((True, None), (False, None), (False, TRIAD_REDUCTION))[value % 3]
            state.add_csm_prior(False, *caches, inversions, reduction)
            root, form, inversion = labels["chord"][parent["chord"]]
            if parent["prev"]["end"] == 0:
                inversions, reduction = True, None
            if not inversions:
                probe("reduced_prior")
            index = hu.get_chord_one_hot_index(
                form, root - labels["key"][parent["key"]][0] - hc.MIN_RELATIVE_TPC, tpc, inversion=inversion,
                relative=True, pad=False, use_inversion=inversions, reduction=reduction)
            parent["csm"] = prior(parent["prior"])[index] * (parent["end"] - parent["prev"]["end"])
            parent["lp"] += parent["csm"]
        elif kind == "hidden" and parent["kids"] == 0:
            numbers = [value + 1, value + 5001, value + 9001]
            keep = value % 3  # a model which has not been run
            new = [h if i == keep else n for i, (h, n) in enumerate(zip(parent["hid"], numbers))]
            state.csm_hidden_state, state.ktm_hidden_state, state.ksm_hidden_state = map(hidden, new)
            parent["hid"] = new
            if keep != 0:
                parent["prior"] = value
                state.csm_log_prior = prior(value)
        elif kind == "scribble" and parent["hid"] != [None] * 3:
            # a network may update its state in place: nobody else's state changes
            for i, values in enumerate((state.csm_hidden_state, state.ktm_hidden_state, state.ksm_hidden_state)):
                if values is not None:
                    parent["hid"][i] += 20000 + value
                    values[0].number += 20000 + value
                    values[1].number -= 20000 + value
            probe("updated_in_place")
        elif kind == "read":
            wrong = read(parent, where)
            if wrong:
                return wrong
        if number < live:
            continue
        for rec in records[max(0, live - 2):] if live else records:
            wrong = verify(rec, f"{where}, state {records.index(rec) if not live else '-'}")
            if wrong:
                return wrong
    for rec in records[max(0, len(records) - 6):]:
        wrong = verify(rec, "at the end") or read(rec, "at the end")
        if wrong:
            return wrong
    if live:
        probe("long_chain")
    return None


def whole(plan):
    return (plan["beams"] and run_beams(plan["beams"])), (plan["tree"] and run_tree(plan["tree"]))


def execute(ctx, plan):
    if not plan["beams"] and not plan["tree"]:
        raise Invalid()
    out = ctx.spawn(whole, plan, fs={"listing": [], "faults": []})
    ctx.check(out.ok, "search-structure-failed", lambda: f"{out} {out.tb}")
    beams, tree = out.value
    ctx.event("history", plan, "result", beams, tree)
    ctx.steps += len((plan["beams"] or {"ops": []})["ops"]) + len((plan["tree"] or {"ops": []})["ops"])
    ctx.nontrivial = any(ctx.probes.get(k) for k in ("offer_rejected", "continued_twice", "rejoined"))
    ctx.check(not beams, "beam-holds-other-states", lambda: beams)
    ctx.check(not tree, "hypothesis-lost-its-history", lambda: tree)
