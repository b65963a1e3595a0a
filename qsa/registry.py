CHECKS = {k: (m, "other") for m, ks in {
    "spec": "C08 C10 C11 C12 C13 C17",
    "mathchk": "C19 C20",
    "delta": "C14 C25",
    "maskchk": "C09",
    "calib": "C22",
    "stack": "C18",
    "contin": "C16", "fitter": "C23",
    "mpichk": "C01 C02 C03", "outchk": "C05",
    "catchk": "C04 C06", "selchk": "C24", "argchk": "C21", "iochk": "C07",
}.items() for k in ks.split()}
