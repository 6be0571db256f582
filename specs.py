"""Property -> symbolic runs.  A run is one harness linked with the real sources it exercises, a set of bounds (params) and engine options."""
SYS = ["basicsys/" + x for x in ["sys_timer", "sys_alg_analyzer", "sys_strcombine", "sys_thread_lock", "sys_os", "sys_strhelper"]]
MATH = ["basicmath/" + x for x in ["mt_data_type", "mt_mat_helper", "mt_helper", "mt_mat_cache", "mt_mat", "mt_array_iteration"]]
MSER = SYS + MATH + ["basicimg/img_mser_base", "basicimg/img_mser_helper"]
ALG = {1: "basicimg/img_fast_mser_v1", 2: "basicimg/img_fast_mser_v2", 3: "basicimg/img_linked_linear_mser"}
LEG = {4: "basicimg/img_origin_mser", 5: "basicimg/img_ms_mser", 6: "basicimg/img_idiap_mser", 7: "basicimg/img_opencv_mser", 8: "basicimg/img_opencv3_mser", 9: "basicimg/img_vlfeat_mser"}
AN = {1: "v1", 2: "v2", 3: "linked"}
SPECS = {}
def er(name, alg, thr=1, thorough_only=False, timeout=None, quick=None, thorough=None, **k):
    d = dict(name=name, harness="mser_er.cpp", defs=["ALG=%d" % alg], mod="basicimg", srcs=MSER + [ALG.get(alg) or LEG[alg]], params=dict(THR=thr, **k), thorough_only=thorough_only, reach=["some region reported"])
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    if timeout: d["timeout"] = timeout
    return d
def ag(name, h, quick=None, thorough=None, thorough_only=False, reach=(), opts=None, **k):
    d = dict(name=name, harness=h, defs=[], mod="basicimg", srcs=MSER + list(ALG.values()), params=dict(k), opts=opts or {}, thorough_only=thorough_only, reach=list(reach))
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    return d
SPECS["SELF"] = dict(runs=[dict(name="fp", harness="selftest_fp.cpp", srcs=[], samples=400, stride=1)])
# M01: extremal regions
W1 = dict(W=4, H=4, L=2, TPL=1, SW=3, SH=2, SX=1, SY=1)
W32 = dict(W=8, H=4, L=2, TPL=1, SW=3, SH=2, SX=3, SY=1)
m01 = []
for a in (1, 2, 3):
    m01 += [er(AN[a] + "_3x3", a, W=3, H=3, L=2), er(AN[a] + "_3x3_c8", a, W=3, H=3, L=2, CONN=8), er(AN[a] + "_pal", a, W=2, H=2, L=3, PAL=6), er(AN[a] + "_min", a, W=3, H=2, L=2, FLAGS=16),
            er(AN[a] + "_2x3L3", a, W=2, H=3, L=3), er(AN[a] + "_4x3", a, W=4, H=3, L=2, thorough_only=True), er(AN[a] + "_3x3L3", a, W=3, H=3, L=3, thorough_only=True)]
for t in (2, 4, 8, 16): m01.append(er("v1_t%d" % t, 1, t, **W1))
m01.append(er("v1_t32", 1, 32, **W32)); m01 += [er("v2_t4", 2, 4, **W1), er("v2_t32", 2, 32, **W32)]
m01 += [er("v1_t4_c8", 1, 4, CONN=8, **W1), er("v1_t2_c8", 1, 2, CONN=8, **W1), er("v2_t4_c8", 2, 4, CONN=8, **W1)]
for b in (1, 4, 104, 200):
    for pt in range(8): m01.append(ag("big%d_%d" % (b, pt), "mser_big.cpp", A=b, PAT=pt, W=24, H=20, K=2, reach=["several regions"]))
for b in (2, 8, 16, 32, 132): m01.append(ag("big%d_0" % b, "mser_big.cpp", A=b, PAT=0, W=24, H=20, K=2, reach=["several regions"]))
for b in (1, 4, 101, 104, 132, 200): m01.append(ag("wide%d" % b, "mser_big.cpp", A=b, PAT=0, W=270, H=5, K=1))
for b in (1, 4, 101, 104, 200): m01.append(ag("tall%d" % b, "mser_big.cpp", A=b, PAT=3, W=4, H=1100, K=1))
for b, w, h in ((2, 1, 4), (4, 4, 1), (8, 3, 2), (16, 4, 3), (32, 7, 4), (32, 8, 3), (104, 1, 4), (132, 7, 2), (1, 1, 1), (4, 1, 1), (101, 1, 1), (104, 1, 1), (200, 1, 1)): m01.append(ag("tiny%d_%dx%d" % (b, w, h), "mser_er2.cpp", A=b, W=w, H=h, L=2, TPL=1, SW=2, SH=1))
for b, w, h in ((1, 66, 62), (101, 66, 62), (200, 66, 62), (4, 132, 124), (104, 132, 124)): m01.append(ag("many%d" % b, "mser_big.cpp", A=b, PAT=8, W=w, H=h, K=1, reach=["several regions"]))
for b in (2, 4, 8, 16, 32, 104, 132): m01 += [ag("min%d_%d_%d" % (b, pt, mp), "mser_big.cpp", A=b, PAT=pt, W=27, H=23, K=2, MINP=mp, reach=["several regions"]) for pt, mp in ((0, 2), (0, 5), (5, 17), (9, 3))]
for b in (2, 4, 8, 16, 32, 104, 132): m01 += [ag("odd%d_%dx%d" % (b, w, h), "mser_big.cpp", A=b, PAT=0, W=w, H=h, K=3, reach=["several regions"]) for w, h in ((15, 7), (11, 13))]
m01 += [er("v1_t%d_odd" % t, 1, t, W=w, H=h, L=2, TPL=1, SW=3, SH=2, SX=w - 3, SY=h - 2) for t, w, h in ((2, 5, 3), (4, 5, 5), (8, 3, 7), (16, 7, 7), (32, 9, 7))] + [er("v2_t%d_odd" % t, 2, t, W=w, H=h, L=2, TPL=1, SW=3, SH=2, SX=w - 3, SY=h - 2) for t, w, h in ((4, 5, 5), (32, 9, 7))]
SPECS["M01"] = dict(runs=m01)
# M02: selection rules
m02 = []
for a in (1, 2, 3):
    n = AN[a]
    m02 += [er(n + "_var", a, W=3, H=2, L=2, FLAGS=2, DMAX=2), er(n + "_nms", a, W=1, H=4, L=3, FLAGS=6, DMAX=1, thorough=dict(H=6)), er(n + "_nms_min", a, W=1, H=4, L=3, FLAGS=22, DMAX=2, thorough=dict(H=6)),
            er(n + "_dup", a, W=1, H=5, L=3, FLAGS=8, thorough=dict(H=6)), er(n + "_dup_min", a, W=4, H=1, L=4, FLAGS=24), er(n + "_ratio", a, W=2, H=2, L=2, FLAGS=1), er(n + "_all", a, W=2, H=2, L=3, FLAGS=30, DMAX=1, thorough=dict(H=3))]
for t in (2, 4): m02 += [er("v1_t%d_nms" % t, 1, t, W=2, H=2, L=3, FLAGS=22, DMAX=2, thorough=dict(H=3)), er("v1_t%d_dup" % t, 1, t, W=2, H=2, L=4, FLAGS=24)]
m02 += [er("v2_t4_nms", 2, 4, W=2, H=2, L=3, FLAGS=22, DMAX=2, thorough=dict(W=3)), er("v2_t4_dup", 2, 4, W=2, H=2, L=4, FLAGS=24)]
for b in (1, 4, 101, 104, 200): m02 += [ag("big%d_%d" % (b, p), "mser_big.cpp", A=b, PAT=p, W=12, H=10, K=0, DELTA=d, SYMMIN=s, thorough_only=(p == 1)) for p, d, s in ((4, 3, 0), (1, 5, 0), (7, 30, 1), (0, 60, 0))]
for a in (1, 2, 3): m02.append(er(AN[a] + "_nms_gap", a, W=1, H=4, L=3, FLAGS=6, DMAX=2, PAL=-4))
for b in (1, 2, 4, 8, 16, 32, 101, 104, 132, 200): m02 += [ag("nms%d_%d" % (b, d), "mser_big.cpp", A=b, PAT=9, W=12, H=10, K=0, DELTA=d, NMS=1, reach=["several regions"]) for d in (1, 4)] + [ag("nmsmin%d" % b, "mser_big.cpp", A=b, PAT=9, W=12, H=10, K=2, DELTA=3, NMS=500, MINP=3, reach=["several regions"])]
SPECS["M02"] = dict(runs=m02)
CFGS = (1, 2, 4, 8, 16, 32, 101, 104, 132, 200)
def wd(b): return dict(W=8 if b in (32, 132) else 4, H=4)
# M03: every implementation and thread count reports what the linked (linear time) implementation reports
SPECS["M03"] = dict(runs=[ag("g%d" % b, "mser_agree.cpp", A=200, B=b, L=3, TPL=2, SW=2, SH=1 if b in (2, 8, 16) else 2, SX=(3 if b % 100 == 32 else 1), SY=1, FLAGS=f, W=8 if b % 100 == 32 else 4, H=3, reach=["regions compared"], thorough=dict(SH=2, FLAGS=14)) for (b, f) in ((1, 6), (2, 6), (4, 6), (8, 6), (16, 6), (32, 2), (101, 6), (104, 6), (132, 2))]
  + [ag("f%d" % b, "mser_agree.cpp", A=200, B=b, L=3, W=2, H=2, FLAGS=31, reach=["regions compared"], thorough_only=True) for b in (1, 101)]
  + [ag("e%d" % b, "mser_agree.cpp", A=200, B=b, L=3, W=4, H=1, FLAGS=30, DMAX=1, reach=["regions compared"]) for b in (1, 101)])
# M04: no schedule of the parallel phases changes the result
SPECS["M04"] = dict(runs=[ag("s%d" % b, "mser_sched.cpp", A=b, W=8 if b % 100 == 32 else 4, H=4, L=2, TPL=1, SW=2, SH=1, SX=1, SY=1, FLAGS=6 if b == 104 else 0, DMAX=1) for b in (2, 4, 8, 16, 32, 104, 132)] + [ag("v%d" % b, "mser_sched.cpp", A=b, W=3, H=3, L=3, TPL=2, SW=2, SH=1, SX=0, SY=1, FLAGS=2, DMAX=1) for b in (2, 4)])
# M05: bright regions are the dark regions of the inverted image
SPECS["M05"] = dict(runs=[ag("d%d" % b, "mser_dual.cpp", A=b, L=3, FLAGS=0, W=3, H=2) for b in (1, 4, 101, 104, 200)])
# M06: extraction has no memory of earlier extractions
SPECS["M06"] = dict(runs=[ag("r%d_%d" % (b, q), "mser_reuse.cpp", A=b, L=2, FLAGS=0, W=3, H=2, SEQ=q, TPL=(0 if q == 0 else 1), SW=2, SH=2, SX=0, SY=0, reach=["regions compared"]) for b in (1, 4, 101, 104, 200) for q in range(5)] + [ag("r%d_%d" % (b, q), "mser_reuse.cpp", A=b, L=2, FLAGS=0, W=8, H=4, SEQ=q, TPL=1, SW=2, SH=1, SX=3, SY=1, reach=["regions compared"]) for b, q in ((2, 1), (8, 1), (16, 1), (32, 1), (32, 2), (132, 1), (132, 2), (32, 4), (132, 4))])
SPECS["M07"] = dict(runs=[ag("c%d" % b, "mser_copy.cpp", A=b, L=2, TPL=1, SW=2, SH=2, SX=1, SY=1, FLAGS=16, reach=["regions compared"], **wd(b)) for b in CFGS])
SPECS["M08"] = dict(runs=[ag("t%d" % b, "mser_meta.cpp", A=b, L=2, TPL=1, SW=2, SH=2, SX=1, SY=1, FLAGS=16, reach=["regions compared"], **wd(b)) for b in CFGS])
SPECS["M09"] = dict(runs=[ag("k%d_w%d" % (k, w), "mser_mask.cpp", A=200, KIND=k, VIEW=v, W=w, H=2, L=2, FLAGS=16, reach=["masked region"]) for k, v, w in ((0, 0, 3), (0, 1, 2), (1, -1, 3), (2, -1, 3))])
SPECS["M10"] = dict(runs=[ag("r%d" % b, "mser_render.cpp", A=b, L=3, TPL=2, SW=2, SH=2, SX=1, SY=1, FLAGS=16, reach=["region rendered"], **wd(b)) for b in CFGS])

# B01: views
def mt(name, h, reach=(), quick=None, thorough=None, thorough_only=False, opts=None, more=(), **k):
    d = dict(name=name, harness=h, defs=[], mod="basicmath", srcs=SYS + MATH + ["basicmath/mt_mat_math_operation"] + list(more), params=dict(k), opts=opts or {}, thorough_only=thorough_only, reach=list(reach))
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    return d
b01 = [mt("one_b%d_c%d" % (b, c), "mat_view.cpp", B=b, CH=c, DEPTH=d, LEN=1, reach=["view checked"]) for b, c, d in ((0, 3, 0), (1, 1, 9), (2, 2, 3), (3, 2, 8), (4, 3, 4), (5, 2, 6))]
b01 += [mt("two_b%d_c%d" % (b, c), "mat_view.cpp", B=b, CH=c, DEPTH=d, LEN=2, reach=["view checked"], thorough_only=t) for b, c, d, t in ((0, 2, 2, True), (14, 1, 2, False), (1, 2, 2, True), (4, 1, 0, True))]
SPECS["B01"] = dict(runs=b01)

# B02: element operations.  SHAPE < 0 is a set of shapes (bit mask) to choose from
def el(name, mode, d, d2, ch, shapes, **k):
    m = 0
    for i in shapes: m |= 1 << i
    return mt(name, "mat_elem.cpp", MODE=mode, D=d, D2=d2, CH=ch, SHAPE=-m, reach=["element operation checked"], **k)
b02 = [el("set_c%d" % c, 0, d, d, c, (0, 1, 2, 3, 4, 5, 6, 7)) for c, d in ((1, 2), (2, 0), (3, 3), (4, 0), (5, 5))]
b02 += [el("conv_c%d" % c, 0, -1, -1, c, sh, LAYS=l) for c, sh, l in ((1, (1, 4), 0x21), (2, (12,), 0x41), (5, (7,), 0x05))]
b02 += [el("fill_c%d_%d" % (c, d), 1, d, d, c, (0, 1, 2, 3, 4, 5, 6, 7)) for c, d in ((1, 0), (2, 0), (3, 2), (4, 8), (5, 1), (1, 9), (2, 5), (3, 1), (5, 4))] + [el("filld_c%d" % c, 1, -1, 0, c, (1, 4), LAYS=0x21) for c in (1, 2)]
b02 += [el("elem_c%d_%d" % (c, d), 2, d, d, c, sh, LAYS=l) for c, d, sh, l in ((1, 0, (0, 1, 5), 255), (3, 3, (1, 4), 255), (5, 9, (1,), 255), (2, -1, (3,), 5))] + [el("elemsym_c%d_%d" % (c, d), 2, d, d, c, sh, SYM=1) for c, d, sh in ((1, 0, (2,)), (2, 1, (11,)))]
b02 += [el("own_c%d_%d" % (c, d), 3, d, e, c, sh, LAYS=l) for c, d, e, sh, l in ((1, 0, 2, (0, 1, 6), 255), (2, 3, 8, (1, 4), 255), (5, 5, 9, (1,), 255), (1, 9, 1, (5,), 255), (2, -1, -1, (3,), 2))]
b02 += [el("cmp_c%d_%d" % (c, d), 4, d, d, c, sh) for c, d, sh in ((1, 0, (1, 5)), (2, 3, (2,)), (1, 8, (8, 0, 3)), (2, 9, (11,)), (1, 6, (11, 6)))]
b02 += [el("ctor_c%d_%d" % (c, d), 5, d, d, c, sh) for c, d, sh in ((1, 0, (0, 1, 4)), (3, 5, (1, 7)))] + [el("shape_c%d" % c, 6, 2, 3, c, sh) for c, sh in ((1, (1, 3, 7)), (2, (0, 4, 6)))]
SPECS["B02"] = dict(runs=b02)

# B03: element-wise arithmetic
def ar(name, mode, d, ch, shapes, d2=-2, **k):
    m = 0
    for i in shapes: m |= 1 << i
    return mt(name, "mat_arith.cpp", MODE=mode, D=d, D2=d2, CH=ch, SHAPE=-m, reach=["arithmetic checked"], **k)
b03 = [ar("mat_c%d_%d" % (c, d), 0, d, c, sh, LAYS=l, LAYB=m) for c, d, sh, l, m in ((1, 0, (0, 1, 3), 255, 255), (2, 2, (1, 4), 0x6f, 0x31), (1, -1, (1,), 0x21, 0x11), (3, 8, (3,), 0x25, 0x05), (5, 5, (5,), 0x11, 0x09), (1, 9, (4,), 0xff, 0x01))]
b03 += [ar("val_c%d_%d" % (c, d), 1, d, c, sh, LAYS=l) for c, d, sh, l in ((1, 0, (0, 1, 3), 255), (2, 3, (1, 4, 5), 255), (5, 5, (1, 3), 255), (1, -1, (1,), 0x21), (4, 8, (3,), 0x45))]
b03 += [ar("fun_c%d_%d" % (c, d), 2, d, c, sh, LAYS=l) for c, d, sh, l in ((1, 8, (0, 1, 3), 255), (2, 9, (1, 4, 5), 255), (2, 0, (6,), 0x21), (1, -1, (6,), 3))]
b03 += [ar("bias_c%d_%d" % (c, d), 3, d, c, sh, LAYS=l, LAYB=m) for c, d, sh, l, m in ((1, 0, (0, 1, 3), 255, 0x21), (2, 8, (1, 4, 5), 0x31, 0x11), (1, 9, (6, 7, 9, 10), 0x41, 0x81))] + [ar("biasd", 3, -1, 1, (9,), LAYS=1, LAYB=1, ND=6)]
b03 += [ar("mask_c%d_%d" % (c, d), 4, d, c, sh, LAYS=l, LAYB=m, d2=e) for c, d, e, sh, l, m in ((1, 0, 0, (0, 1, 3), 255, 0x21), (2, 3, 3, (1, 4, 5), 0x31, 0x11), (1, -1, -1, (6,), 1, 1), (2, 9, 9, (3,), 0x21, 0x21))]
b03 += [ar("expand_c%d_%d" % (c, d), 5, d, c, sh, LAYS=l) for c, d, sh, l in ((1, 0, (0, 1), 255), (3, 3, (1, 4), 0x21), (5, 9, (1,), 0x11), (1, 2, (5,), 0x01))]
SPECS["B03"] = dict(runs=b03)

# B04: pooling
def po(name, mode, d, ch, shapes, **k):
    m = 0
    for i in shapes: m |= 1 << i
    return mt(name, "mat_pool.cpp", MODE=mode, D=d, CH=ch, SHAPE=-m, reach=["pooling checked"], more=["basicmath/mt_pooling"], **k)
# (channels, depth, shapes, layouts, mask layouts, largest kernel, types): max and min fork on every comparison, so they get smaller windows
b04 = [po("p%d_c%d_%d_%d_%d" % (mode, c, d, sh[0], ty), mode, d, c, sh, LAYS=l, LAYM=m, KMAX=q, TYPES=ty, thorough_only=10 in sh) for mode in (0, 1) for c, d, sh, l, m, q, ty in ((1, 0, (1,), 0x21, 0x11, 3, 0x39), (1, 2, (10,), 0x01, 1, 2, 6), (1, 2, (3,), 0x03, 1, 3, 6), (1, 0, (1,), 0x04, 1, 2, 6), (2, 3, (11,), 0x08, 0x40, 2, 0x39), (2, 3, (11,), 0x08, 0x40, 2, 6), (1, 1, (3,), 0x41, 0x21, 2, 0x3f), (3, 4, (12,), 0x80, 0x05, 2, 0x39), (2, 5, (5,), 0x04, 0x02, 2, 6), (1, 0, (14,), 0x80, 0x02, 2, 6), (1, 7, (0,), 0x05, 0x21, 3, 0x3f), (2, 0, (6,), 0x10, 0x03, 2, 0x39), (2, 1, (13,), 0x02, 1, 2, 6), (1, 0, (13,), 0x20, 1, 2, 6), (1, 8, (11,), 0x10, 1, 2, 0x3f), (2, 9, (4,), 0x03, 1, 2, 0x39), (1, -1, (2,), 1, 1, 2, 0x3f))]
SPECS["B04"] = dict(runs=b04)

# B05: reductions, activations, losses; B06: lists of mats
def rd(name, mode, d, ch, shapes, **k):
    m = 0
    for i in shapes: m |= 1 << i
    return mt(name, "mat_reduce.cpp", MODE=mode, D=d, CH=ch, SHAPE=-m, reach=["operation checked"], **k)
b05 = [rd("reduce_c%d_%d_%d" % (c, d, sh[0]), 0, d, c, sh, LAYS=l) for c, d, sh, l in ((1, 8, (11,), 0x21), (1, 0, (11,), 0xff), (2, 9, (2,), 0x41), (2, 3, (5,), 0x03), (1, -1, (16,), 1), (1, 7, (13,), 0x21))]
b05 += [rd("fold_c%d_%d_%d" % (c, d, sh[0]), 0, d, c, sh, LAYS=l, TYPES=0xf3) for c, d, sh, l in ((2, 9, (4,), 0x11), (1, 8, (1, 9, 6), 0x09), (3, 8, (10,), 0x80))] + [rd("sum_c%d_%d" % (c, d), 0, d, c, (1, 5), LAYS=0x21, TYPES=3) for c, d in ((3, 0), (1, 2))]
b05 += [rd("act_c%d_%d_%d" % (c, d, sh[0]), 1, d, c, sh, LAYS=l) for c, d, sh, l in ((1, 8, (2, 15, 11), 0xff), (2, 9, (5, 16), 0x41), (2, 8, (11, 13), 0x21), (5, 9, (6, 7), 0x11), (1, 9, (1, 4), 0x0c))]
b05 += [rd("loss_c%d_%d_%d" % (c, d, sh[0]), 2, d, c, sh, LAYS=l, LAYB=m) for c, d, sh, l, m in ((1, 8, (2, 3, 11), 0xff, 0x21), (2, 9, (2, 5), 0x41, 5), (1, 9, (3, 16, 13), 0x21, 0x11))]
SPECS["B05"] = dict(runs=b05)
b06 = [rd("list_c%d_%d_%d" % (c, d, sh[0]), 3, d, c, sh, LAYS=l, LAYB=m, MATS=q) for c, d, sh, l, m, q in ((1, 0, (2, 16), 0xff, 0x21, 3), (2, 2, (11, 13), 0x41, 5, 4), (1, 8, (5,), 0x21, 0x11, 3), (1, -1, (2,), 0x01, 2, 3), (3, 9, (2,), 3, 0x40, 3), (2, 5, (6, 7), 0x21, 0x11, 3), (1, 6, (3, 14), 0x10, 0x80, 4))]
SPECS["B06"] = dict(runs=b06)

# B07: sorting and selection
def al(name, h, reach, **k): return mt(name, h, reach=[reach], **k)
b07 = [al("%s_n%d_t%d" % (("sort", "top", "select")[m], n, t), "alg_sort.cpp", ("sorted", "selected", "selected")[m], MODE=m, N=n, T=t) for m, n, t in ((0, 0, 0), (0, 1, 1), (0, 3, 2), (0, 4, 0), (0, 3, 3), (1, 3, 0), (1, 4, 1), (1, 0, 3), (1, 3, 2), (2, 1, 0), (2, 4, 0), (2, 3, 2), (2, 5, 1))]
b07 += [al("ints_n%d_t%d" % (n, t), "alg_sort.cpp", "selected", MODE=3, N=n, T=t) for n, t in ((0, 0), (4, 0), (3, 1), (5, 2))] + [al("abs_n%d_t%d" % (n, t), "alg_sort.cpp", "selected", MODE=4, N=n, T=t) for n, t in ((1, 0), (3, 0), (2, 1), (3, 2))] + [al("order", "alg_sort.cpp", "compared", MODE=5)]
SPECS["B07"] = dict(runs=b07)

# B08: dynamic programming and numbers
b08 = [al("bag_n%d_t%d" % (n, t), "alg_dp.cpp", "bag", MODE=0, N=n, T=t, **k) for n, t, k in ((0, 0, {}), (1, 0, {}), (2, 0, dict(VLO=-5)), (3, 0, {}), (2, 1, {}))]
b08 += [al("lcs_%d_%d_t%d" % (n, m, t), "alg_dp.cpp", "substring", MODE=1, N=n, M=m, T=t) for n, m, t in ((1, 1, 0), (1, 3, 0), (3, 1, 1), (3, 3, 0), (4, 2, 1))]
b08 += [al("sum_n%d_t%d" % (n, t), "alg_dp.cpp", "range", MODE=2, N=n, T=t) for n, t in ((1, 0), (4, 0), (4, 1))]
b08 += [al("index", "alg_dp.cpp", "number", MODE=3), al("tolerance", "alg_dp.cpp", "number", MODE=4), ] + [al("number%d" % o, "alg_dp.cpp", "number", MODE=5, OPS=1 << o) for o in range(10)]
SPECS["B08"] = dict(runs=b08)

# B09: geometry
SPECS["B09"] = dict(runs=[al("%s%s" % (nm, x), "alg_geom.cpp", "geometry", MODE=m, **k) for m, nm, x, k in ((0, "basics", "", {}), (1, "moves", "", {}), (2, "sets", "", {}), (3, "append", "", {}), (4, "ratios", "", dict(LIM=1, SIZ=2)), (5, "scaling", "", dict(LIM=200, SIZ=200)), (6, "distance", "", dict(LIM=1)))])

# B11: memory handed out in pieces
SPECS["B11"] = dict(runs=[al("blocks", "mem_pool.cpp", "memory", MODE=0, STEPS=3, thorough=dict(STEPS=4)), al("cache", "mem_pool.cpp", "memory", MODE=1, STEPS=4, thorough=dict(STEPS=5)), al("recycle", "mem_pool.cpp", "memory", MODE=2)])

MKL = ["-Dbasicsys_enable_mkl", "-I" + __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/lib/port/mkl"]
# B12: automatic derivatives.  O1..O3 (low 24 operations) and O1H.. (the others) are the sets of operations to choose from
def gr(name, *ops, **k):
    p = dict(k)
    for i, o in enumerate(ops): p["O%d" % (i + 1)] = o & 0xffffff; p["O%dH" % (i + 1)] = o >> 24
    return mt(name, "mat_grad.cpp", reach=["derived"], more=["basicmath/mt_pooling", "basicmath/mt_auto_derivative", "basicmath/mt_auto_derivative_tree"], STEPS=len(ops), **p)
GI, GF = 0x1fffff, 0x7fe00000
b12 = [gr("int_one_c%d" % c, GI, INTS=1, CH=c, SHAPES=m) for c, m in ((1, 0x2f), (2, 0x45))] + [gr("real_one_c%d" % c, GF | 1 << 20, CH=c, SHAPES=m) for c, m in ((1, 0x2f), (2, 0x45))]
LIN, ARI, NON = 0x0fc400 | 1 << 9, 0x3 | 0x194, 0x7a600000
b12 += [gr("arith_two", 0x1ff, 0x6, INTS=1, BITS=2, SHAPES=4), gr("arith_lists", 0x106, 0x180, INTS=1, BITS=2, SHAPES=16), gr("arith_more", 0x1ff, 0x187, INTS=1, BITS=2, SHAPES=4, thorough_only=True), gr("views_two_c2", 0x0ffc00, 0x0dfc00, INTS=1, CH=2, SHAPES=8, CHAIN=1), gr("views_then_arith", 0x03f400, 0x6, INTS=1, SHAPES=1), gr("arith_three", 0x6, 0x6, 0x4, CHAIN=1, INTS=1, BITS=2, SHAPES=16), gr("arith_three_all", 0x6, 0x6, 0x6, INTS=1, BITS=2, SHAPES=16, thorough_only=True)]
b12 += [gr("real_two", 0x7a600006, 0x7a600006, SHAPES=32, CHAIN=1), gr("bias_two", 1 << 23 | 1 << 24, 1 << 23 | 4, SHAPES=32, CHAIN=1), gr("softmax", 1 << 29, 0x40000004, SHAPES=0x21), gr("pool_two", 1 << 20 | 1 << 15, 1 << 20 | 4, SHAPES=1)]
b12 += [gr("ignored%d" % i, 0x1c601, 0x1c604, INTS=1, SHAPES=1, IGNORE=i) for i in (1, 2)] + [gr("again%d" % c, 0x2, 0x6, INTS=1, SHAPES=16, CACHE=c, SRC=1, TWICE=1) for c in (1, 30)] + [gr("early", 0x6, 0x406, INTS=1, SHAPES=16, EARLY=1, RESET=1)] + [gr("lists%d" % a, 0x6, 0x206, INTS=1, BITS=2, SHAPES=16, API=a) for a in (1, 2, 3)] + [gr("one_attached", 0x187, 0x80006, INTS=1, BITS=2, SHAPES=16, BOTH=0, CHAIN=1)]
def gm(name, *ops, **k): r = gr(name, *ops, **k); r["defs"] = ["MKL_STAND"]; r["srcs"] = r["srcs"] + ["basicmath/ml_multiplication", "basicmath/mt_convolution"]; return r
b12 += [gm("product", 1 << 31, SHAPES=0x63, VSETS=1), gm("product_c2", 1 << 31, SHAPES=0x21, CH=2, VSETS=1), gm("convolution", 1 << 32, SHAPES=0x29, VSETS=1), gm("convolution_c2", 1 << 32, SHAPES=0x22, CH=2, VSETS=1), gm("products", 1 << 31 | 2, 1 << 31 | 4, SHAPES=1, VSETS=1), gm("convolutions", 1 << 32 | 2, 1 << 32 | 4, SHAPES=1, VSETS=1, CHAIN=1), gm("views_product", 0x03f400, 3 << 31, SHAPES=1, VSETS=1, CHAIN=1), gm("views_convolution", 0x03f400, 1 << 32, SHAPES=0x20, VSETS=1, CHAIN=1, CH=2, thorough_only=True)]
SPECS["B12"] = dict(pre={"basicmath/ml_multiplication": MKL, "basicmath/mt_convolution": MKL}, runs=b12)

# S01 documents, S02 texts, S03 buffers, S04 files and directories
def tx(name, m, **k): return mt(name, "sys_text.cpp", reach=["text"], more=["basicsys/sys_path"], MODE=m, **k)
s02 = [tx("split_%d_%d" % (n, m), 0, N=n, M=m) for n, m in ((0, 1), (3, 0), (5, 1), (7, 2), (8, 3))] + [tx("replace_%d_%d_%d" % (n, m, k), 1, N=n, M=m, K=k) for n, m, k in ((0, 1, 1), (2, 0, 1), (4, 1, 0), (3, 1, 2), (4, 2, 1), (6, 2, 3), (6, 3, 2), (6, 1, 1))] + [tx("trim_%d" % n, 2, N=n) for n in (0, 1, 6)] + [tx("letters_%d" % n, 3, N=n) for n in (0, 2, 4)]
s02 += [tx("edit_%d_%d" % (n, m), 4, N=n, M=m) for n, m in ((0, 0), (0, 2), (2, 0), (1, 1), (2, 2), (1, 3), (3, 2), (4, 4), (5, 3))] + [tx("edit_%d_%d_p%d" % (n, m, p), 4, N=n, M=m, PAD=p, COSTS=-c) for n, m, p, c in ((1, 1, 9, 5), (1, 2, 14, 7), (2, 1, 20, 5), (1, 1, 40, 6), (1, 1, 70, 7))] + [tx("format", 5)] + [tx("names_%d" % n, 6, N=n) for n in (0, 1, 3, 5)]
SPECS["S02"] = dict(runs=s02)
def bf(name, kind, **k): return mt(name, "sys_buffers.cpp", reach=["buffer"], more=["basicsys/sys_buffer"], KIND=kind, **k)
KN = ("bytes", "bytefile", "string", "stringfile")
s03 = []
for q in range(4): s03 += [bf(KN[q] + "_all", q, W=1, R=1, CLOSE=1, ROPS=0xffff if q < 2 else 0xf800), bf(KN[q] + "_seek", q, W=3, R=1, WOPS=0x4004 if q < 2 else 0x6000, ROPS=0x0800), bf(KN[q] + "_reads", q, W=1 if q < 2 else 2, R=2, WOPS=0x0020 if q < 2 else 0x0800, ROPS=0xf804 if q < 2 else 0xf800), bf(KN[q] + "_append", q, W=1, R=1, APPEND=1, WOPS=0x6800, ROPS=0x0800), bf(KN[q] + "_three", q, W=2, R=3, WOPS=0x2000, ROPS=0x1800 if q < 2 else 0x3000)]
for q in (1, 3): s03 += [bf(KN[q] + "_give%d" % g, q, W=1, R=1, GIVE=g, WOPS=0x0801, ROPS=0x0801) for g in (1, 2)]
s03 += [bf(KN[q] + "_numbers", q, W=1, R=1, WOPS=0x03fc, ROPS=0x0400) for q in (2, 3)]
SPECS["S03"] = dict(runs=s03)
def jd(name, m, **k): return mt(name, "sys_docs.cpp", reach=["document"], more=["basicsys/sys_buffer", "basicsys/sys_json", "basicmath/mt_mat_serialize"], MODE=m, **k)
s01 = []
for t in (0, 1):
    for f in (0, 1):
        n = ("bin", "text")[t] + ("", "file")[f]
        s01 += [jd(n + "_values", 0, TXT=t, FIL=f, OPS=0x7ff), jd(n + "_text", 0, TXT=t, FIL=f, OPS=0x800), jd(n + "_moved", 0, TXT=t, FIL=f, OPS=0x402, MOVED=1), jd(n + "_people", 2, TXT=t, FIL=f), jd(n + "_seq", 3, TXT=t, FIL=f)] + [jd(n + "_c%d" % c, 1, TXT=t, FIL=f, OPS=1 << c) for c in range(8)]
        s01 += [jd(n + "_mat%d" % d, 4, TXT=t, FIL=f, D=d, CH=1 + d % 3) for d in range(10) if (d + f) % 2 or not f]
SPECS["S01"] = dict(runs=s01)
def fl(name, m, **k): return mt(name, "sys_files.cpp", reach=["files"], more=["basicsys/sys_path"], MODE=m, **k)
SPECS["S04"] = dict(runs=[fl("listing", 0, N=2, thorough=dict(LEN=3)), fl("creating", 1), fl("long", 4), fl("deleting", 2, N=3, thorough=dict(N=4)), fl("moving", 3)])
# M11: the sequential extractor the library keeps for comparison (ms_mser)
def ms(name, h, **k): d = ag(name, h, **k); d["defs"] = ["MS"]; d["srcs"] = MSER + list(ALG.values()) + [LEG[4], LEG[5]]; return d
def seq(n, a): return [er(n + "tree", a, W=3, H=3, L=2), er(n + "tree_c8", a, W=3, H=3, L=2, CONN=8), er(n + "pal", a, W=2, H=2, L=3, PAL=6), er(n + "var", a, W=3, H=2, L=2, FLAGS=2, DMAX=2), er(n + "nms_min", a, W=1, H=4, L=3, FLAGS=22, DMAX=2), er(n + "dup_min", a, W=4, H=1, L=4, FLAGS=24), er(n + "all", a, W=2, H=2, L=3, FLAGS=30, DMAX=1, thorough=dict(H=3)), er(n + "L3", a, W=2, H=3, L=3)]
SPECS["M11"] = dict(runs=seq("ms_", 5) + seq("or_", 4) + [
  ms("agree", "mser_agree.cpp", A=200, B=300, L=3, TPL=2, SW=2, SH=2, SX=1, SY=1, FLAGS=6, W=4, H=3, reach=["regions compared"]), ms("dual", "mser_dual.cpp", A=300, L=3, FLAGS=0, W=3, H=2), ms("copy", "mser_copy.cpp", A=300, L=2, TPL=1, SW=2, SH=2, SX=1, SY=1, FLAGS=16, W=4, H=4, reach=["regions compared"]), ms("meta", "mser_meta.cpp", A=300, L=2, TPL=1, SW=2, SH=2, SX=1, SY=1, FLAGS=16, W=4, H=4, reach=["regions compared"])]
  + [ms("reuse%d" % q, "mser_reuse.cpp", A=300, L=2, FLAGS=0, W=3, H=2, SEQ=q, TPL=(0 if q == 0 else 1), SW=2, SH=2, SX=0, SY=0, reach=["regions compared"]) for q in range(5)]
  + [ms("or_" + n, "mser_%s.cpp" % n, A=301, L=2, TPL=1, SW=2, SH=2, SX=1, SY=1, FLAGS=f, W=w, H=h) for n, f, w, h in (("dual", 0, 3, 3), ("copy", 16, 4, 4), ("meta", 16, 4, 4))]
  + [ms("or_reuse%d" % q, "mser_reuse.cpp", A=301, L=2, FLAGS=0, W=3, H=2, SEQ=q, TPL=(0 if q == 0 else 1), SW=2, SH=2, SX=0, SY=0, reach=["regions compared"]) for q in range(5)]
  + [ms("or_mask%d_w%d" % (k, w), "mser_mask.cpp", A=301, KIND=k, VIEW=v, W=w, H=2, L=2, FLAGS=16, reach=["masked region"]) for k, v, w in ((0, 0, 3), (0, 1, 2), (1, -1, 3), (2, -1, 3))]
  + [ms("big%d" % p, "mser_big.cpp", A=300, PAT=p, W=24, H=20, K=2, reach=["several regions"]) for p in (0, 1, 4)])
# M12: connected components
def cc(name, **k): return dict(name=name, harness="img_cc.cpp", defs=[], mod="basicimg", srcs=MSER + ["basicimg/img_connected_component"], params=dict(k), opts={}, thorough_only=False, reach=["component", "nothing but background"])
SPECS["M12"] = dict(runs=[cc("gray", W=3, H=2), cc("gray_c8", W=3, H=2, CONN=8, BG=7), cc("rgb", CH=3, W=2, H=2), cc("rgba", CH=4, W=2, H=2, CONN=8), cc("render", W=2, H=2, USE=1), cc("copies", W=2, H=2, USE=2), cc("picture", W=3, H=2, USE=4), cc("picture_tall", W=1, H=4, USE=4), cc("picture_wide", W=4, H=1, USE=4, CONN=8), cc("masks", W=2, H=2, USE=3), cc("masks_c8", W=3, H=2, USE=3, CONN=8)])
# M14: canny edges
def cn(name, **k): return dict(name=name, harness="img_canny.cpp", defs=[], mod="basicimg", srcs=MSER + ["basicimg/img_canny"], params=dict(k), opts={}, thorough_only=False, reach=["edge", "no edge"] if not k.get("MODE", 0) > 1 else ["edge"])
SPECS["M14"] = dict(runs=[cn("image", W=3, H=2, L=3, D=10), cn("pixels", W=3, H=1, D=7, EACH=1, VIEW=0), cn("pixels_v", W=1, H=3, D=7, EACH=1, VIEW=0), cn("square", W=2, H=2, L=3, D=3, EACH=1, VIEW=0), cn("field", W=3, H=3, L=3, D=1, VIEW=0), cn("angle", W=3, H=3, L=1, MODE=1, D=1, VIEW=0), cn("history", W=3, H=2, L=3, D=1, HIST=1, VIEW=0), cn("given", W=2, H=1, D=4, GIVEN=1, OUT=1), cn("many", W=66, H=66, MODE=2, D=1), cn("levels", W=3, H=1, L=5, D=2, VIEW=0), cn("large", W=3, H=2, L=3, D=6, D0=12, VIEW=0), cn("long", W=34, H=66, MODE=3, D=1)])
# B13: matrix product and convolution, with stand-ins for MKL
def pr(name, mode, **k): return mt(name, "mat_prod.cpp", reach=["product"], more=["basicmath/ml_multiplication", "basicmath/mt_convolution"], MODE=mode, **k)
SPECS["B13"] = dict(pre={"basicmath/ml_multiplication": MKL, "basicmath/mt_convolution": MKL}, runs=[pr("mul", 0), pr("mul_f64", 0, F64=1, MAX=2), pr("mul_c2", 0, CH=2, MAX=2), pr("conv1", 1, ND=1, MAX=4, KMAX=3, ALIGN=1, LAYS=43, LAYB=35), pr("conv2", 1, ND=2, MAX=3, KMAX=2, ALIGN=1, LAYS=1, LAYB=1), pr("conv2_lay", 1, ND=2, MAX=2, KMAX=2, ALIGN=1, TARGETS=1), pr("conv3_f64", 1, ND=3, MAX=2, KMAX=2, F64=1, ALIGN=1, TARGETS=1, LAYS=1, LAYB=1), pr("channels", 1, ND=1, MAX=2, KMAX=2, CH=2, KCH=2, LAYS=42, LAYB=65, TARGETS=2), pr("channels3", 1, ND=2, MAX=2, KMAX=2, CH=3, KCH=2, LAYS=33, LAYB=65, TARGETS=1), pr("many_channels", 1, ND=1, MAX=2, KMAX=2, CH=17, KCH=1, LAYS=33, LAYB=1, TARGETS=1), pr("many_kernels", 1, ND=1, MAX=2, KMAX=2, CH=1, KCH=17, LAYS=3, LAYB=3, TARGETS=2)])
