"""How each property is checked: the harness, and the build variant it runs on."""
CHECKS = {
    "C01": {"harness": "c01", "variant": "plain"},
    "C02": {"harness": "c02", "variant": "plain"},
    "C03": {"harness": "c03", "variant": "plain"},
    "C04": {"harness": "c04", "variant": "asan"},
    "C05": {"harness": "c05", "variant": "plain"},
    "C06": {"harness": "c06", "variant": "plain"},
    "C07": {"harness": "c07", "variant": "plain"},
    "C08": {"harness": "c08", "variant": "plain"},
    "C09": {"harness": "c09", "variant": "plain"},
    "C10": {"harness": "c10", "variant": "asan"},
    "C11": {"harness": "c11", "variant": "asan"},
    "C12": {"harness": "c12", "variant": "asan"},
    "C14": {"harness": "c14", "variant": "plain"},
    "C15": {"harness": "c15", "variant": "plain"},
    "C13": {"harness": "c13", "variant": "asan"},
    "C16": {"harness": "c16", "variant": "asan"},
    "C17": {"harness": "c17", "variant": "asan"},
    "C18": {"harness": "c18", "variant": "asan"},
    "C21": {"harness": "c21", "variant": "plain"},
    "C19": {"harness": "c19", "variant": "asan", "tools": {"VP_TOOL": "asan"}},
    "C22": {"harness": "c22", "variant": "asan"},
    "C23": {"harness": "c23", "variant": "asan"},
    "C20": {"harness": "c20", "variant": "asan"},
    "C24": {"harness": "c24", "variant": "asan"},
}
