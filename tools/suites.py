SUITES = {
    "C01": ("s_robots", "c01"), "C02": ("s_robots", "c02"), "C04": ("s_robots", "c04"), "C05": ("s_robots", "c05"), "C07": ("s_robots", "c07"), "C08": ("s_robots", "c08"), "C20": ("s_robots", "c20"),
    "C03": ("s_scene", "c03"),
    "C15": ("s_scene", "c15"),
    "C06": ("s_scene", "c06"),
}
SUITES["C09"] = ("s_col", "c09")
SUITES.update({"C10": ("s_saba", "c10"), "C12": ("s_saba", "c12"), "C11": ("s_saba", "c11"), "C13": ("s_saba", "c13"), "C18": ("s_saba", "c18")})
SUITES["C21"] = ("s_env", "c21")
SUITES["C16"] = ("s_wsp", "c16")
SUITES["C14"] = ("s_eef", "c14")
SUITES["C19"] = ("s_dyn", "c19")
SUITES["C22"] = ("s_ik", "c22")
SUITES["C23"] = ("s_gsp", "c23")
SUITES["C24"] = ("s_gsp", "c24")
SUITES["C17"] = ("s_conc", "c17")
SUITES["C25"] = ("s_robots", "c25")
NOTE = {}
NOT_APPLICABLE = {}
