"""Configurations, claims and floors of the checks."""
CONFIGS = {
    "all": "std error sval2 serde1 test owned seq inline-i128 inline-str inline-str-l",
    "docs": "std error sval2 serde1 test owned seq",
    "inl": "std error sval2 serde1 test owned seq inline-str",
    "min": "",
    "std": "std error test owned seq",
    "alloc": "sval2 serde1 owned seq",
}
TRUSTED = [
    "rustc's MIR construction and type checking of the tree",
    "the models of std functions in vbai/src/models.rs and vbai/src/stdm.rs, and the plain replacements of std, serde_buf and sval_buffer code in witness/src/shim",
    "no text or slice is longer than the 47-bit user address space",
    "user code behind opaque functions does not mutate library state except through the public API",
]
STD = ["all", "docs", "min"]
WATCH = (
    "static analysis of compiler IR: abstract interpretation of monomorphic MIR over every use of the public API in "
    "witness/src, reporting each reachable {}"
)
COMPILE = (
    "type-level witnesses: programs the compiler must reject with a given error code, each paired with a program "
    "differing in the one point at issue that it must accept"
)
PROPS = {
    "C01": {"configs": STD},
    "C02": {"configs": STD},
    "C03": {"configs": STD},
    "C04": {"configs": STD},
    "C05": {"configs": STD},
    "C06": {"configs": STD},
    "C07": {"configs": STD},
    "C08": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "alloc"]},
    "C09": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "alloc"]},
    "C10": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "alloc"]},
    "C11": {"configs": STD},
    "C12": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "std", "alloc"]},
    "C13": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "std", "alloc"]},
    "C14": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "std", "alloc"]},
    "C15": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "std"]},
    "C16": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "std", "alloc"]},
    "C17": {"configs": STD},
    "C18": {"configs": STD},
    "C19": {"technique": WATCH.format("operation with undefined behaviour"), "configs": STD, "shards": 2, "thorough": list(CONFIGS)},
    "C20": {"technique": WATCH.format("panic the caller did not cause"), "configs": STD, "shards": 2, "thorough": list(CONFIGS)},
    "C21": {"technique": COMPILE, "note": "Limited to the programs in compile/cases.py and the feature configurations run.", "configs": STD, "compile": True, "thorough": list(CONFIGS)},
    "C22": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "std"]},
    "C23": {"configs": STD},
    "C24": {"configs": ["all", "docs"], "thorough": ["all", "docs", "inl", "std"]},
}
# fewest obligations per configuration (counted when the obligations were written)
FLOORS = {
    "C01": {"all": 86, "docs": 84, "min": 80},
    "C02": {"all": 156, "docs": 156, "min": 156},
    "C03": {"all": 1194, "docs": 1194, "min": 222},
    "C04": {"all": 93, "docs": 93, "min": 30},
    "C05": {"all": 123, "docs": 123, "min": 32},
    "C06": {"all": 406, "docs": 406, "min": 90},
    "C07": {"all": 190, "docs": 190, "min": 60},
    "C08": {"all": 94, "docs": 94},
    "C09": {"all": 190, "docs": 190},
    "C10": {"all": 715, "docs": 715},
    "C11": {"all": 3507, "docs": 3507, "min": 660},
    "C12": {"all": 720, "docs": 720},
    "C13": {"all": 4686, "docs": 4686},
    "C14": {"all": 433, "docs": 433},
    "C15": {"all": 1123, "docs": 1123},
    "C16": {"all": 288, "docs": 288},
    "C17": {"all": 896, "docs": 896, "min": 224},
    "C18": {"all": 589, "docs": 589, "min": 127},
    "C19": {"all": 15447, "docs": 15445, "min": 1727},
    "C20": {"all": 15447, "docs": 15445, "min": 1727},
    "C21": {"all": 273, "docs": 285, "min": 103},
    "C22": {"all": 128, "docs": 128},
    "C23": {"all": 203, "docs": 203, "min": 44},
    "C24": {"all": 94, "docs": 94},
}
