"""Property id -> (check function, level, technique)."""
import c_case
import c_enc
import c_frag
import c_num
import c_panic
import c_pure
import c_rec
import c_rt
import c_secret
import c_stream
import c_tags
import c_types

CHECKS = {
    "P01": (lambda c: c_rt.check(c, c_rt.CLIENT), "other", "abstract interpretation"),
    "P02": (lambda c: c_rt.check(c, c_rt.SERVER), "other", "abstract interpretation"),
    "P03": (c_panic.decode, "other", "abstract interpretation"),
    "P04": (c_panic.encode, "other", "abstract interpretation"),
    "P06": (c_frag.framing, "other", "abstract interpretation"),
    "P07": (c_frag.state, "other", "abstract interpretation"),
    "P05": (c_rec.check, "other", "abstract interpretation"),
    "P08": (c_stream.lacking, "other", "abstract interpretation"),
    "P09": (c_stream.literals, "other", "abstract interpretation"),
    "P10": (c_enc.fragments, "other", "abstract interpretation"),
    "P12": (c_types.check, "other", "abstract interpretation"),
    "P13": (c_case.check, "other", "abstract interpretation"),
    "P14": (c_secret.check, "other", "information-flow analysis"),
    "P20": (c_num.check, "other", "abstract interpretation"),
    "P17": (c_tags.check, "other", "abstract interpretation"),
    "P18": (c_pure.check, "other", "effect analysis"),
    "P11": (c_enc.injection, "other", "abstract interpretation"),
}
