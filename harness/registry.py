"""property -> (module, function, level, technique note)"""
CHECKS = {
    "C01": ("c_elastic", "c01"),
    "C02": ("c_elastic", "c02"),
    "C03": ("c_elastic", "c03"),
    "C04": ("c_elastic", "c04"),
    "C05": ("c_elastic", "c05"),
    "C06": ("c_elastic", "c06"),
    "C07": ("c_elastic", "c07"),
    "C08": ("c_lifecycle", "c08"),
    "C09": ("c_lifecycle", "c09"),
    "C11": ("c_results", "c11"),
    "C10": ("c_results", "c10"),
    "C12": ("c_bridge", "c12"),
    "C13": ("c_bridge", "c13"),
    "C14": ("c_inf", "c14"),
    "C15": ("c_load_cases", "c15"),
    "C16": ("c_load_cases", "c16"),
    "C17": ("c_load_cases", "c17"),
    "C21": ("c_vehicle", "c21"),
    "C22": ("c_section", "c22"),
    "C23": ("c_section", "c23"),
    "C19": ("c_modal", "c19"),
    "C20": ("c_tendon", "c20"),
    "C18": ("c_plastic", "c18"),
    "C26": ("c_plastic", "c26"),
    "C25": ("c_display", "c25"),
    "C24": ("c_display", "c24"),
}
NOTES = {}
