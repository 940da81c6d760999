"""Worker processes per check and float mode."""
SHARDS = {
    "C01": {"f64": 2, "f32": 1},
    "C02": {"f64": 1, "f32": 2},
    "C03": {"f64": 3, "f32": 1},
    "C04": {"f64": 2, "f32": 2},
    "C05": {"f64": 1, "f32": 1},
    "C06": {"f64": 2, "f32": 1},
    "C07": {"f64": 2, "f32": 1},
    "C08": {"f64": 2, "f32": 1},
    "C09": {"f64": 2, "f32": 1},
    "C10": {"f64": 2, "f32": 1},
    "C11": {"f64": 2, "f32": 1},
    "C12": {"f64": 2, "f32": 1},
    "C13": {"f64": 3, "f32": 1},
    "C14": {"f64": 2, "f32": 2},
    "C15": {"f64": 2, "f32": 2},
    "C16": {"f64": 1, "f32": 1},
    "C17": {"f64": 4, "f32": 2},
    "C18": {"f64": 2, "f32": 1},
    "C19": {"f64": 5, "f32": 3},
    "C20": {"f64": 2, "f32": 2},
    "C21": {"f64": 2},
    "C22": {"f64": 3, "f32": 1},
    "C23": {"f64": 2, "f32": 1},
    "C24": {"f64": 1},
    "C25": {"f64": 2, "f32": 1},
    "C26": {"f64": 2, "f32": 1},
    "C27": {"f64": 2},
    "C28": {"f64": 2, "f32": 1},
    "C29": {"f64": 3, "f32": 2},
    "C30": {"f64": 2, "f32": 1},
    "C31": {"f64": 4},
    "C32": {"f64": 4},
    "C33": {"f64": 1, "f32": 1},
    "C34": {"f64": 3},
    "C35": {"f64": 2},
    "C36": {"f64": 3},
    "C37": {"f64": 8, "f32": 6},
    "C38": {"f64": 2, "f32": 1},
    "C39": {"f64": 2, "f32": 2},
}

# Factor on the tests' quick counts, so that a quick check uses about half a minute on 8 cores.
QUICK_FACTOR = {
    "C01": 4,
    "C02": 3,
    "C04": 4,
    "C05": 4,
    "C06": 4,
    "C07": 3,
    "C08": 2,
    "C09": 3,
    "C10": 3,
    "C11": 3,
    "C12": 3,
    "C13": 2,
    "C14": 2,
    "C15": 4,
    "C16": 4,
    "C17": 3,
    "C18": 2,
    "C21": 4,
    "C23": 3,
    "C24": 4,
    "C25": 3,
    "C26": 3,
    "C27": 2,
    "C28": 4,
    "C30": 4,
    "C39": 4,
}
