INDEX = {
    "C03": ("issues", "c03"),
    "C05": ("types", "c05"),
    "C06": ("attrs", "c06"),
    "C07": ("attrs", "c07"),
    "C04": ("attrs", "c04"),
    "C08": ("schemas", "c08"),
    "C09": ("presence", "c09"),
    "C10": ("operators", "c10"),
    "C11": ("operators", "c11"),
    "C12": ("filters", "c12"),
    "C13": ("sorting", "c13"),
    "C14": ("patch", "c14"),
    "C15": ("patch", "c15"),
    "C16": ("endpoints", "c16"),
    "C17": ("endpoints", "c17"),
    "C18": ("listing", "c18"),
    "C19": ("bulk", "c19"),
    "C21": ("container", "c21"),
    "C22": ("container", "c22"),
    "C26": ("filters", "c26"),
    "C27": ("query", "c27"),
    "C23": ("shipped", "c23"),
    "C24": ("misc", "c24"),
    "C25": ("misc", "c25"),
    "C28": ("misc", "c28"),
    "C29": ("roundtrip", "c29"),
    "C01": ("whole", "c01"),
    "C02": ("whole", "c02"),
    "C20": ("whole", "c20"),
}
