CHECKS = {
    "C01": ("c_tree", "c01"),
    "C02": ("c_tree", "c02"),
    "C03": ("c_tree", "c03"),
    "C04": ("c_query", "c04"),
    "C05": ("c_query", "c05"),
    "C07": ("c_query", "c07"),
    "C08": ("c_query", "c08"),
    "C09": ("c_query", "c09"),
    "C10": ("c_query", "c10"),
    "C11": ("c_accum", "c11"),
    "C12": ("c_tree", "c12"),
    "C29": ("c_choice", "c29"),
    "C06": ("c_twin", "c06"),
    "C13": ("c_twin", "c13"),
    "C14": ("c_twin", "c14"),
    "C15": ("c_twin", "c15"),
    "C24": ("c_cluster", "c24"),
    "C25": ("c_cluster", "c25"),
    "C26": ("c_cluster", "c26"),
    "C16": ("c_terms", "c16"),
    "C17": ("c_terms", "c17"),
    "C20": ("c_terms", "c20"),
    "C21": ("c_terms", "c21"),
    "C22": ("c_terms", "c22"),
    "C23": ("c_terms", "c23"),
    "C18": ("c_map", "c18"),
    "C19": ("c_map", "c19"),
    "C27": ("c_eval", "c27"),
    "C30": ("c_dummy", "c30"),
    "C31": ("c_load", "c31"),
    "C28": ("c_view", "c28"),
    "C32": ("c_ops", "c32"),
    "C33": ("c_shape", "c33"),
    "C34": ("c_copy", "c34"),
    "C35": ("c_pipe", "c35"),
    "C36": ("c_names", "c36"),
}
