"""property id -> deciding function"""
import importlib

TABLE = {
    "C04": ("p_null", "check"),
    "C01": ("p_own", "check"),
    "C02": ("p_own", "check"),
    "C03": ("p_own", "check"),
    "C13": ("p_own", "check"),
    "C10": ("p_state", "check"),
    "C05": ("p_meta", "check_variant"),
    "C11": ("p_width", "check"),
    "C12": ("p_base", "check"),
    "C06": ("p_index", "check"),
    "C07": ("p_prov", "check_entry"),
    "C08": ("p_prov", "check_desc"),
    "C09": ("p_prov", "check_alloc"),
    "C14": ("p_fail", "check"),
    "C24": ("p_query", "check"),
    "C19": ("p_vararg", "check"),
    "C15": ("p_store", "check_db"),
    "C22": ("p_store", "check_map"),
    "C23": ("p_list", "check_list"),
    "C25": ("p_list", "check_iter"),
    "C26": ("p_bits", "check"),
    "C27": ("p_tags", "check_map"),
    "C28": ("p_tags", "check_handlers"),
    "C20": ("p_module", "check"),
    "C16": ("p_tagstr", "check"),
    "C32": ("p_map", "check"),
    "C17": ("p_dwtree", "check"), "C18": ("p_override", "check"), "C21": ("p_dwarfy", "check"),
    "C30": ("p_deep", "check_equal"),
    "C31": ("p_deep", "check_copy"),

    "C29": ("p_cover", "check"),
}


def find(pid):
    if pid not in TABLE:
        raise SystemExit("no check for " + pid)
    m, f = TABLE[pid]
    return getattr(importlib.import_module(m), f)
