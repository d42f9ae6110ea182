# The property table used by check.py: which harness decides the property, in which build configurations.
PROPS = {
    "C01": dict(harness=["harness/c01_spin_lock.cpp"], sched=True),
    "C02": dict(harness=["harness/c02_spin_progress.cpp"], sched=True),
    "C03": dict(harness=["harness/c03_utf8_roundtrip.cpp"]),
    "C04": dict(harness=["harness/c04_utf8_malformed.cpp"]),
    "C05": dict(harness=["harness/c05_base64.cpp"]),
    "C06": dict(harness=["harness/c06_base64_malformed.cpp"]),
    "C07": dict(harness=["harness/c07_deserializer.cpp"]),
    "C08": dict(harness=["harness/c08_serialize.cpp"]),
    "C09": dict(harness=["harness/c09_tree_traversal.cpp"]),
    "C10": dict(harness=["harness/c10_tree_mutation.cpp"]),
    "C11": dict(locale=True, harness=["harness/c11_string_parser.cpp"]),
    "C12": dict(locale=True, harness=["harness/c12_integers.cpp"]),
    "C13": dict(locale=True, harness=["harness/c13_floats.cpp"]),
    "C14": dict(locale=True, harness=["harness/c14_strings.cpp"]),
    "C15": dict(harness=["harness/c15_word_wrap.cpp"]),
    "C16": dict(harness=["harness/c16_make_string.cpp"]),
    "C17": dict(harness=["harness/c17_signal.cpp"]),
    "C18": dict(harness=["harness/c18_shared.cpp"]),
    "C19": dict(harness=["harness/c19_unique.cpp"]),
    "C20": dict(harness=["harness/c20_singleton.cpp"],
                # the vptr check does not accept the CRTP down cast of an object under construction
                flags={"asan17": ["-fno-sanitize=vptr"], "asan20": ["-fno-sanitize=vptr"]}),
    "C21": dict(harness=["harness/c21_scope_exit.cpp"]),
    "C22": dict(harness=["harness/c22_flags.cpp"]),
    "C23": dict(harness=["harness/c23_views.cpp"]),
    "C24": dict(harness=["harness/c24_linq.cpp"]),
    "C25": dict(harness=["harness/c25_sort.cpp"], fallback=True),
    "C26": dict(harness=["harness/c26_span.cpp"]),
    "C27": dict(harness=["harness/c27_exceptions.cpp"]),
    "C28": dict(harness=["harness/c28_assert_log.cpp"], configs_quick=["asan17", "asan20", "rel17", "rel20"]),
    "C29": dict(harness=["harness/c29_values.cpp"]),
    "C32": dict(harness=["harness/c32_ticks.cpp"]),
    "C33": dict(harness=["harness/c33_faults.cpp"]),
    "C30": dict(harness=["harness/c30_concurrent_calls.cpp"], sched=True,
                # the library's own code has to be instrumented also in the templates of the standard library
                flags={"sched17": ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O0"], "sched20": ["-D_GLIBCXX_EXTERN_TEMPLATE=0"],
                       "schedclang": ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]}),
    "C31": dict(harness=["harness/c31_shared_threads.cpp"], sched=True),
}
