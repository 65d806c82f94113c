H("C01", "c01_field.cpp")
H("C02", "c02_hash.cpp")
H("C03", "c03_triplet.cpp")
H("C04", "c04_io.cpp")
H("C05", "c05_transforms.cpp")
H("C06", "c06_matvec.cpp")
H("C07", "c07_sparse_solve.cpp")
H("C08", "c08_dense_solve.cpp")
H("C22", "c22_matching.cpp")
H("C23", "c23_dm.cpp")
H("C24", "c24_scc.cpp")
H("C09", "c09_pivots.cpp", ffpack=True)
H("C11", "c11_schur.cpp", ffpack=True)
H("C12", "c12_dense.cpp")
H("C13", "c13_ffpack.cpp", ffpack=True)
H("C14", "c14_echelon.cpp", ffpack=True)
H("C15", "c15_lu.cpp", ffpack=True)
H("C16", "c16_solve.cpp", ffpack=True)
H("C17", "c17_rref.cpp", ffpack=True)
H("C18", "c18_kernel.cpp", ffpack=True)
H("C19", "c19_cert.cpp", ffpack=True)
H("C20", "c20_tamper.cpp", ffpack=True)
H("C21", "c21_verify.cpp", ffpack=True)
H("C10", "c10_pivots_par.cpp", kind="sched", ffpack=True)
H("C25", "c25_rows_par.cpp", kind="sched", ffpack=True)
H("C26", "c26_pipeline_par.cpp", kind="sched", ffpack=True)
H("C27", "c27_memory.cpp", ffpack=True)
H("C28", "c28_history.cpp", ffpack=True)
H("C30", "c30_picture.cpp")
H("C29", "tools_check.py", kind="tools", ffpack=True)
H("C31", "c31_leaks.cpp", ffpack=True)
H("C32", "c32_huge.cpp", kind="fast", ffpack=True, cap=(300, 850))
