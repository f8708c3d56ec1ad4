CHECKS = {
    "R01": ("g_raster", "r01"),
    "R02": ("g_raster", "r02"),
    "R03": ("g_raster", "r03"),
    "R04": ("g_raster", "r04"),
    "R05": ("g_raster", "r05"),
    "R06": ("g_raster", "r06"),
    "R07": ("g_raster", "r07"),
    "R08": ("g_raster", "r08"),
    "R09": ("g_raster", "r09"),
    "R10": ("g_raster", "r10"),
    "R11": ("g_raster", "r11"),
    "R12": ("g_raster", "r12"),
    "R13": ("g_raster", "r13"),
    "R15": ("g_raster", "r15"),
    "R14": ("g_types", "r14"),
    "R16": ("g_types", "r16"),
    "R18": ("g_raster", "r18"),
    "R19": ("g_raster", "r19"),
    "R20": ("g_raster", "r20"),
    "T01": ("g_time", "t01"),
    "T02": ("g_time", "t02"),
    "T03": ("g_time", "t03"),
    "S01": ("g_text", "s01"),
    "S02": ("g_text", "s02"),
    "S03": ("g_text", "s03"),
    "B01": ("g_text", "b01"),
    "F01": ("g_fs", "f01"),
    "F02": ("g_fs", "f02"),
    "F03": ("g_fs", "f03"),
    "A01": ("g_array", "a01"),
    "A02": ("g_array", "a02"),
    "A03": ("g_array", "a03"),
    "M01": ("g_math", "m01"),
    "M02": ("g_math", "m02"),
    "G01": ("g_mongo", "g01"),
    "G02": ("g_raster", "g02"),
    "P01": ("g_raster", "p01"),
    "R17": ("g_raster", "r17"),
    "G03": ("g_mongo", "g03"),
    "G04": ("g_mongo", "g04"),
    "O01": ("g_raster", "o01"),
}
