"""A complete joint model over the torch stand-in: small layers, seeded weights."""
SIZES = {
    "ccm": dict(lstm_hidden_dim=4, hidden_dim=4),
    "ctm": dict(embed_dim=4, lstm_hidden_dim=4, hidden_dim=4),
    "csm": dict(embed_dim=4, lstm_hidden_dim=4, hidden_dim=4),
    "ktm": dict(embed_dim=4, lstm_hidden_dim=4, hidden_dim=4),
    "ksm": dict(embed_dim=4, lstm_hidden_dim=4, hidden_dim=4),
}


def rand_model(rng):
    """Seeded description of models and search parameters."""
    sharp = rng.random() < 0.55  # a chord changes exactly where it is more likely than not
    return {
        "weights": rng.randrange(1 << 16), "scale": rng.choice([1, 2, 4]), "pitch_based": int(rng.random() < 0.3),
        "moved": int(rng.random() < 0.3), "stay": int(rng.random() < 0.3), "sane": int(rng.random() < 0.8),
        "params": {
            "min_chord_change_prob": 0.5 if sharp else rng.choice([0.25, 0.3, 0.05]),
            "max_no_chord_change_prob": 0.5 if sharp else rng.choice([0.45, 0.5, 0.95]),
            "min_key_change_prob": rng.choice([0.05, 0.1, 0.3]),
            "max_no_key_change_prob": rng.choice([0.75, 0.95]),
            "beam_size": rng.choice([2, 5, 10]),
            "max_chord_branching_factor": rng.choice([1, 2, 3]),
            "target_chord_branch_prob": rng.choice([0.5, 0.75]),
            "max_key_branching_factor": rng.choice([1, 2]),
            "hash_length": rng.choice([None, 1, 2, 5]),
            "ksm_exponent": rng.choice([1, 50]),
        },
    }


def sub_models(spec):
    import torch
    from torch import _core

    import harmonic_inference.models.chord_classifier_models as ccm
    import harmonic_inference.models.chord_sequence_models as csm
    import harmonic_inference.models.chord_transition_models as ctm
    import harmonic_inference.models.initial_chord_models as icm
    import harmonic_inference.models.key_sequence_models as ksm
    import harmonic_inference.models.key_transition_models as ktm
    from harmonic_inference.data.chord import get_chord_vector_length
    from harmonic_inference.data.data_types import PieceType, PitchType
    from harmonic_inference.utils import harmonic_constants as hc
    from harmonic_inference.utils import harmonic_utils as hu

    torch.manual_seed(spec["weights"])
    _core.WEIGHTS.scale = float(spec["scale"])
    tpc = PitchType.TPC
    csm_class = csm.PitchBasedChordSequenceModel if spec["pitch_based"] else csm.SimpleChordSequenceModel
    models = {
        "ccm": ccm.SimpleChordClassifier(PieceType.SCORE, tpc, tpc, **SIZES["ccm"],
                                         transposition_range=[-1, 1] if spec.get("moved") else [0, 0]),
        "ctm": ctm.SimpleChordTransitionModel(PieceType.SCORE, tpc, **SIZES["ctm"]),
        "csm": csm_class(tpc, tpc, tpc, **SIZES["csm"]),
        "ktm": ktm.SimpleKeyTransitionModel(tpc, tpc, **SIZES["ktm"]),
        "ksm": ksm.SimpleKeySequenceModel(tpc, tpc, tpc, **SIZES["ksm"]),
    }
    if spec.get("sane"):  # chords on the usual roots only
        for layer in vars(models["ccm"]).values():
            if getattr(layer, "out_features", None) == models["ccm"].num_classes:
                for i in range(layer.out_features):
                    root = hu.get_chord_from_one_hot_index(i, tpc)[0]
                    layer.bias[i] -= 0 if 10 <= root <= 20 else 64
    if spec.get("stay"):  # the next key is most likely on the same tonic
        count = hc.MAX_KEY_CHANGE_INTERVAL_TPC - hc.MIN_KEY_CHANGE_INTERVAL_TPC
        for layer in vars(models["ksm"]).values():
            if getattr(layer, "out_features", 0) == 2 * count:
                for mode in range(2):
                    layer.bias[mode * count - hc.MIN_KEY_CHANGE_INTERVAL_TPC] += 16
    length = get_chord_vector_length(tpc, one_hot=True, relative=True, use_inversions=True, pad=False)
    weights = [1 + (spec["weights"] * (i + 3)) % 7 for i in range(length)]
    minor = [1 + (spec["weights"] * (i + 5)) % 5 for i in range(length)]
    models["icm"] = icm.SimpleInitialChordModel({
        "inversions_present": True, "reduction_present": None, "pitch_type": tpc,
        "major": [w / sum(weights) for w in weights], "minor": [w / sum(minor) for w in minor],
    })
    return models


def make(spec):
    from harmonic_inference.models.joint_model import HarmonicInferenceModel

    return HarmonicInferenceModel(sub_models(spec), **spec["params"])


def describe(state, model):
    """Everything a user reads off a decoded state."""
    if state is None:
        return None
    chords, changes = state.get_chords()
    keys, key_changes = state.get_keys()
    return {"chords": [int(c) for c in chords], "changes": [int(c) for c in changes],
            "keys": [int(k) for k in keys], "key_changes": [int(c) for c in key_changes],
            "log_prob": round(float(state.log_prob), 6)}
