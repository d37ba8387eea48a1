"""What the checker knows about this code base: which calls create and which destroy library objects,
who may be inlined, how the walker's dependency queue hands results over.

The tables are the confirmed instances (read in the code); everything else about a function is
derived from its body.
"""
import re

# class of object -> (constructors, destructors).  Objects of class 'libc' come from malloc/calloc/strdup
# and dsprintf and are released with free().
CLASSES = {
    "value": (["metac_new_value", "metac_new_value_from_value", "metac_new_value_by_element_id",
               "metac_new_value_by_member_id", "metac_new_element_count_value",
               "metac_parameter_storage_new_param_value", "metac_value_walker_new_value"],
              ["metac_value_delete"]),
    "call params": (["metac_new_value_with_call_params"], ["metac_value_with_call_params_delete"]),
    "call result": (["metac_new_value_with_call_result"], ["metac_value_with_call_result_delete"]),
    "entry": (["metac_new_entry", "metac_new_element_count_entry"], ["metac_entry_delete"]),
    "iterator": (["metac_new_recursive_iterator"], ["metac_recursive_iterator_free"]),
    "hashmap": (["hashmapCreate"], ["hashmapFree"]),
    "parameter storage": (["metac_new_parameter_storage"], ["metac_parameter_storage_delete"]),
    "tag map": (["metac_new_tag_map", "metac_new_tag_map_ex"], ["metac_tag_map_delete"]),
    "memory map": (["metac_new_value_memory_map_ex"], ["metac_value_memory_map_delete"]),
    "memory entry": (["metac_new_memory_entry"], ["metac_memory_entry_delete"]),
    "count_by context": (["metac_new_count_by_context"], ["metac_count_by_context_delete"]),
    "container_of context": (["metac_new_container_of_context"], ["metac_container_of_context_delete"]),
    "member_select context": (["metac_new_union_member_permanent_selection", "metac_new_union_member_select_by_context"],
                              ["metac_union_member_select_by_context_delete"]),
    "ptr_cast context": (["metac_new_ptr_cast_context"], ["metac_ptr_cast_context_delete"]),
}
CTOR = {c: k for k, (cs, ds) in CLASSES.items() for c in cs}
DTOR = {d: k for k, (cs, ds) in CLASSES.items() for d in ds}

KEEP_PREFIX = ("metac_recursive_iterator_", "hashmap", "dsprintf", "vdsprintf", "metac_parameter_storage_", "metac_tag_map_")


def keep(n):
    b = n.split("@")[0]
    return b in CTOR or b in DTOR or b.startswith(KEEP_PREFIX)


def inline_policy(limit):
    def pol(n, internal, info):
        if keep(n):
            return False
        return internal or info["size"] <= limit
    return pol

# fields that own what they point to: wherever an object of this type is released, so is the field
OWNING = {
    "Hashmap": ["buckets"],
    "metac_count_by_context": ["counter_sibling_entry_name"],
    "metac_memory_entry": ["p_val", "pp_children"],
    "metac_memory_map": ["p_addr_ptr_val_to_memory_entry", "p_top_entry"],
    "metac_parameter": ["addr"],
    "metac_ptr_cast_context": ["sibling_count_fieldname", "sibling_selector_fieldname", "p_cases"],
    "metac_tag_map": ["p_categories", "p_default_tag"],
    "metac_union_member_select_by_context": ["sibling_selector_fieldname", "p_cases"],
    "metac_entry_tag": ["p_tagstring"],
}
# destructor -> what its argument points to
DTOR_STRUCT = {
    "hashmapFree": "Hashmap", "metac_count_by_context_delete": "metac_count_by_context",
    "metac_memory_entry_delete": "metac_memory_entry", "metac_value_memory_map_delete": "metac_memory_map",
    "metac_ptr_cast_context_delete": "metac_ptr_cast_context", "metac_tag_map_delete": "metac_tag_map",
    "metac_union_member_select_by_context_delete": "metac_union_member_select_by_context",
    "metac_value_delete": "metac_value", "_entry_tag_delete": "metac_entry_tag",
}
# destructor -> (struct, field) of an element of a collection, released in a loop
OWNING_ELEMENTS = {
    "hashmapFree": [("Entry", "next")],
    "metac_value_delete": [("metac_value", "p_entry")],
    "metac_tag_map_delete": [("metac_tag_map_entry", "p_map")],
    "metac_parameter_storage_delete": [("metac_parameter_storage_list", "lh_first"), ("metac_parameter", "p_entry")],
}
