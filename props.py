# What each check runs: translation units (globs under sc/), scenarios (prefix
# patterns), how many simulated runs.  Shared by check.py and gen_docs.py.
ELEM = "Elem: non trivial element that records where it lives; copying, comparing, and (tm) moving it may throw"
PROPS = {
    "C01": dict(
        tus=["seq_*", "rec"],
        scn=["seq.*.all", "seq.*.read", "rec.vec.all", "rec.flex.all",
             "rec.arr.all"],
        quick=150000, thorough=4000000),
    "C02": dict(
        tus=["seq_flex_*"],
        scn=["seq.flex.*.cat", "seq.flex.*.mcat", "seq.flex.*.fault", "seq.huge.*"],
        quick=130000, thorough=4000000),
    "C03": dict(
        tus=["hash_*", "rec"],
        scn=["hash.*.all", "hash.*.trans", "rec.map.all"],
        quick=135000, thorough=3000000),
    "C04": dict(
        tus=["hash_*"],
        scn=["hash.*.diff"],
        quick=100000, thorough=3000000),
    "C05": dict(
        tus=["seq_flex_elem", "seq_flex_int", "seq_flex_sized", "seq_flex_gc",
             "seq_vec_elem", "seq_vec_int", "seq_arr_elem", "seq_arr_gc",
             "hash_set_elem", "hash_map_elem", "hash_map_gc", "hash_tab_elem",
             "hash_map_sized", "seq_flex_nest", "hash_map_nest",
             "seq_flex_nd", "hash_map_nd", "rec"],
        scn=["*.all", "*.trans", "*.share", "*.steal", "*.faultm", "*.fault",
             "*.mcat"],
        quick=100000, thorough=3000000),
    "C06": dict(
        tus=["seq_*", "hash_set_elem", "hash_map_elem", "hash_tab_elem",
             "hash_map_int", "hash_map_gc", "hash_set_gc", "hash_map_nest",
             "hash_map_nd", "hash_set_nd"],
        scn=["*.trans", "*.mcat"],
        quick=130000, thorough=3000000),
    "C07": dict(
        tus=["seq_*", "hash_*", "rec"],
        scn=["*.share"],
        quick=110000, thorough=3000000),
    "C08": dict(
        tus=["seq_*", "hash_*"],
        scn=["*.steal"],
        quick=110000, thorough=3000000),
    "C09": dict(
        tus=["seq_flex_*", "seq_vec_elem", "seq_vec_tm", "seq_vec_huge",
             "seq_arr_elem",
             "seq_arr_tm", "seq_arr_gc", "seq_arr_sized", "hash_*", "rec"],
        scn=["*.fault"],
        quick=60000, thorough=2000000),
    "C10": dict(
        tus=["seq_flex_*", "seq_vec_*", "seq_arr_*", "hash_*"],
        scn=["*.faultm", "seq.flexgc.abort"],
        quick=75000, thorough=2000000),
    "C11": dict(
        tus=["seq_flex_elem", "seq_flex_tm", "seq_flex_tiny", "seq_flex_sized",
             "seq_flex_unsafe", "seq_flex_nest", "hash_map_nest",
             "seq_vec_elem", "seq_arr_elem", "seq_arr_sized", "seq_arr_tm", "hash_set_elem", "hash_map_elem",
             "hash_tab_elem", "hash_map_sized", "hash_set_tm", "atom_sized",
             "atom_basic", "seq_flex_nd", "hash_map_nd", "rec"],
        scn=["*.all", "*.trans", "*.fault", "*.faultm", "*.cat", "*.box",
             "*.boxf", "*.steal"],
        quick=90000, thorough=3000000),
    "C12": dict(
        tus=["atom_*"],
        scn=["atom.*.lin", "atom.*.linf"],
        quick=400000, thorough=8000000),
    "C13": dict(
        tus=["atom_*", "rec"],
        scn=["atom.*.box", "atom.*.boxf", "atom.*.share", "rec.box.*"],
        quick=400000, thorough=8000000),
    "C14": dict(
        tus=["heap", "seq_flex_tiny", "seq_flex_unsafe", "atom_tm",
             "seq_flex_nest",
             "hash_set_int"],
        scn=["heap.*", "seq.flex.tiny.*", "seq.flex.unsafe.*",
             "seq.flex.nest.*", "atom.tm.lin"],
        quick=300000, thorough=8000000),
    "C15": dict(
        tus=["seq_*_gc", "hash_*_gc", "atom_gc", "rec"],
        scn=["*.gc.*"],
        quick=120000, thorough=4000000),
    "C16": dict(
        tus=["seq_flex_int", "seq_flex_elem", "seq_flex_char", "seq_vec_elem",
             "seq_vec_int", "seq_arr_elem", "hash_set_elem", "hash_map_elem",
             "hash_tab_elem", "hash_set_int", "hash_map_int", "hash_tab_int",
             "seq_flex_nd", "hash_map_nd"],
        scn=["*.read", "*.diff", "*.fault"],
        quick=80000, thorough=3000000),
    "C17": dict(
        tus=["heap", "atom_*", "seq_flex_elem", "seq_flex_tiny", "seq_arr_elem",
             "hash_map_elem", "hash_set_elem", "hash_map_nest"],
        scn=["heap.*", "*.lin", "*.linf", "*.share", "*.steal"],
        quick=250000, thorough=6000000),
    "C18": dict(
        tus=["cost_*"],
        scn=["cost.*"],
        quick=130000, thorough=4000000),
    "C19": dict(
        tus=["dvek"],
        scn=["dvek.*"],
        quick=40000, thorough=3000000),
    "C20": dict(
        tus=["ptr"],
        scn=["ptr.*"],
        quick=500000, thorough=20000000),
}
