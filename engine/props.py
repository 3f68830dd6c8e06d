"""Which rules decide which property, and over which entry points.

property -> [(rule, [regex over entry-point names], {options})]
  rule "contract": the derived transfer function of the entry point against its written contract
  options: floor = least number of entry points expected; what/not = regex over the aspects that count"""
PROPS = {}


def prop(pid, *clauses):
    PROPS[pid] = list(clauses)


CORE = r"root_(raw|vector|list|mixed|packed\d+|packedlist)__"
ALL = r"root_(raw|vector|list|mixed|packed\d+|packedlist|construct|utils|le|levec|leutil|derive|partial|treeroot)__"
READ = r"__(get|root|len|metadata|seq_len|subtree|current_max_len|max_len|depth|with|deconstruct|reconstruct|resolve|value_fetch|value_get)$|root_(le|levec|leutil)__dec|fixtures.*__dec_"
ENC = r"root_(le|levec)__enc|root_leutil__mix|root_utils__vector_tree|fixtures.*__enc_"
DEC = r"root_(le|levec|leutil)__dec"

prop("C01", ("content", [ALL], {"floor": 200}), ("contract", [r"root_raw__set", r"root_construct__.*_(empty|intermediate)", r"root_utils__vector_tree"], {"floor": 6}))
prop("C02", ("contract", [r"root_raw__(get|set|subtree|new|root|default)", r"root_index__route", r"root_route__"], {"floor": 12}))
prop("C03", ("marks", [CORE], {"floor": 140}), ("contract", [r"root_status__", r"root_raw__(set|drop)"], {"floor": 10}))
prop("C04", ("contract", [r"root_memory__"], {"floor": 7}))
prop("C05", ("errors", [r"root_"], {"floor": 300}), ("contract", [r"root_error__", r"root_dyn__", r"root_proving__"], {"floor": 8}))
prop("C06", ("contract", [r"root_(vector|raw|utils)__(?!into_list)", r"root_index__"], {"floor": 60}))
prop("C07", ("contract", [r"root_packed\d+__", r"root_utils__host"], {"floor": 40}))
prop("C08", ("contract", [r"root_(list|mixed|packedlist)__(?!from_raw)"], {"floor": 60}))
prop("C09", ("bounds", [r"root_(vector|list|mixed|packed\d+|packedlist)__(get|set|push|pop|create)$"], {"floor": 40}))
prop("C10", ("refused", [CORE], {"floor": 140}))
prop("C11", ("reads", [READ], {"floor": 100}))
prop("C12", ("contract", [r"root_proving__", r"root_proofs__into_map"], {"floor": 8}), ("errors", [r"root_proving__"], {}))
prop("C13", ("contract", [r"root_proofs__", r"root_compact__", r"root_index__route", r"root_construct__.*_intermediate"], {"floor": 9}))
prop("C14", ("contract", [r"root_dyn__", r"root_noop__"], {"floor": 8}), ("errors", [r"root_dyn__", r"root_noop__"], {}))
prop("C15", ("contract", [r"root_le__enc_(u\d+|bool|h\d+|u256|unit|value)", r"root_value__"], {"floor": 8}))
prop("C16", ("contract", [r"root_le__enc_", r"root_levec__enc", r"root_leutil__mix", r"root_treeroot__"], {"floor": 40}))
prop("C17", ("contract", [DEC], {"floor": 40}))
prop("C18", ("contract", [r"root_derive__"], {"floor": 16}))
prop("C19", ("rejects", [DEC, r"root_derive__dec_"], {"floor": 46}))
prop("C20", ("contract", [r"root_partial__", r"root_derive__partial"], {"floor": 14}))
prop("C21", ("contract", [r"root_\w+__(metadata|from_leaked|reconstruct|deconstruct|from_raw|create|into_raw|into_vector|into_list|into_dangling|leak|new|root|len|max_len|vec|as_\w+)$"], {"floor": 40}))
prop("C22", ("contract", [r"root_index__", r"root_route__"], {"floor": 11}))
prop("C23", ("contract", [r"root_utils__"], {"floor": 6}))
prop("C24")
prop("C25")
prop("C26", ("encodes", [ENC], {"floor": 60}), ("total", [ENC], {"floor": 60}), ("contract", [r"root_treeroot__"], {"floor": 2}))
prop("C27", ("contract", [r"root_construct__"], {"floor": 4}), ("content", [r"root_construct__"], {}))
prop("C32", ("contract", [r"root_serde__", r"root_codec__"], {"floor": 14}))
