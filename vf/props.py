"""The checks, one function per property: which design specifications are
model-checked, which driver records traces, which trace specification decides
them.  Each returns the list of rejections (empty: the property held)."""
import os

REGISTRY = {}


def prop(pid, *expect):
    def deco(f):
        f.expect = expect
        REGISTRY[pid] = f
        return f
    return deco


WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]


@prop("G01", "Push", "Pop", "Update")
def g01(c):
    c.model("HeapImpl", expect_actions=("DoPush", "DoPop", "DoUpdate"))
    exe = c.build_driver("heap.c")
    return c.validate("HeapTrace", c.record(exe))


@prop("G02", "Swap", "End", "Sort")
def g02(c):
    c.model("QSortImpl")
    exe = c.build_driver("sort.c")
    fs = c.record(exe)
    st = [f for f in fs if "step" in f]
    return c.validate("SortTrace", st) + c.validate("SortTrace", [f for f in fs if "whole" in f], split=6)


@prop("G03", "Init", "Seed", "SeedArray", "U32", "I31", "Real1", "Real2", "Real3", "U64", "I63", "Res53", "Idx",
      "IdxWide", "Permute", "Shuffle")
def g03(c):
    c.model("RandDesign")
    exe = c.build_driver("rand.c")
    return c.validate("RandTrace", c.record(exe))


WRAPS = ["-Wl," + ",".join("--wrap=" + f for f in (
    "pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast "
    "pthread_getspecific pthread_setspecific malloc calloc realloc free clock").split())]


@prop("G04", "SetErr", "GetErr", "GetMsg", "SeedRand", "DrawRand", "Tic", "Toc", "SetSimd", "GetSimd", "Addr", "Saw", "End")
def g04(c):
    c.model("StateLock")
    c.model("StateLock", "StateLockLive.cfg")
    exe = c.build_driver("threads.c", extra=WRAPS)
    return c.validate("ThreadTrace", c.record(exe))


@prop("G06", "Scan")
def g06(c):
    c.model("GetoptImpl", workers=8, expect_actions=("DoCall",))
    exe = c.build_driver("getopt.c")
    return c.validate("GetoptTrace", c.record(exe), split=8)


@prop("G07", "Copy", "Sub", "Base", "Wild", "Proto", "PName", "Rev", "Cmp", "Length", "Enum")
def g07(c):
    c.model("StringImpl", expect_actions=("Escape", "Wild", "Plain", "Close"))
    exe = c.build_driver("strings.c")
    return c.validate("StringTrace", c.record(exe), split=8)


@prop("G08", "Head", "Data", "File", "Insert", "Scale", "WErr")
def g08(c):
    c.model("PgmImpl", workers=8, expect_actions=("Feed",))
    exe = c.build_driver("pgm.c")
    return c.validate("PgmTrace", c.record(exe), split=8)


@prop("K01", "Build")
def k01(c):
    exe = c.build_driver("kd.c")
    c.model("KdSearch", workers=8)
    return c.validate("KdTrace", c.record(exe, ["build"]), split=8)


@prop("K02", "Query")
def k02(c):
    c.model("KdSearch", "KdSearchDeep.cfg" if c.thorough else None, workers=8)
    exe = c.build_driver("kd.c")
    return c.validate("KdTrace", c.record(exe, ["query"]), split=8)


@prop("K03", "Limited", "Ladder", "Again", "SOp")
def k03(c):
    c.model("KdSearch", workers=8)
    exe = c.build_driver("kd.c")
    return c.validate("KdTrace", c.record(exe, ["limited"]))


@prop("I01", "DT1", "DT2")
def i01(c):
    c.model("EnvImpl", workers=8)
    return c.validate("ImageTrace", c.record(c.build_driver("imop.c"), ["dt"]), split=8)


@prop("I02", "Conv")
def i02(c):
    c.model("ConvImpl", workers=8)
    return c.validate("ImageTrace", c.record(c.build_driver("imop.c"), ["conv"]), split=8)


@prop("I03", "Tri", "Integral", "Grad", "Polar", "Smooth")
def i03(c):
    c.model("TriImpl", workers=8)
    return c.validate("ImageTrace", c.record(c.build_driver("imop.c"), ["tri"]), split=8)


@prop("V01", "Cmp", "Pairs")
def v01(c):
    c.model("VecImpl")
    return c.validate("VecTrace", c.record(c.build_driver("vec.c")), split=8)


@prop("V02", "Fn", "Atan2", "Sqrt", "SqrtBig", "Solve", "Svd")
def v02(c):
    c.model("SqrtImpl", workers=8)
    return c.validate("NumTrace", c.record(c.build_driver("num.c")), split=8)


@prop("L01", "Lbp", "Flip")
def l01(c):
    c.model("LbpImpl")
    return (c.validate("LbpTrace", c.record(c.build_driver("lbp.c")), split=8)
            + c.validate("LbpTrace", c.record_octave("lbpflip.m")))


@prop("M01", "Mser")
def m01(c):
    c.model("MserImpl", workers=8, expect_actions=("Enter", "Join"))
    return c.validate("MserTrace", c.record(c.build_driver("mser.c"), ["sel"]), split=8)


@prop("M03", "Ell")
def m03(c):
    return c.validate("MserTrace", c.record(c.build_driver("mser.c"), ["ell"]), split=8)


@prop("A01", "Aib")
def a01(c):
    c.model("AibImpl", workers=8, expect_actions=("Update", "Pick", "Done"))
    return c.validate("AibTrace", c.record(c.build_driver("aib.c")), split=8)


@prop("A02", "Cut")
def a02(c):
    c.model("AibImpl", workers=8)
    return c.validate("AibTrace", c.record_octave("aibcut.m", mex=["aib/vl_aib.c", "aib/vl_aibhist.c", "misc/vl_binsum.c"]), split=8)


@prop("S01", "Slic")
def s01(c):
    c.model("SlicImpl", workers=8, expect_actions=("Scan", "Expand", "Finish"))
    return c.validate("SegTrace", c.record(c.build_driver("seg.c"), ["slic"]), split=8)


@prop("S02", "Shift", "Default")
def s02(c):
    return c.validate("SegTrace", c.record(c.build_driver("seg.c"), ["qs"]), split=8)


@prop("C01", "Train")
def c01(c):
    c.model("ElkanImpl", workers=8, expect_actions=("MoveCentres", "Reassign"))
    return c.validate("IkmTrace", c.record(c.build_driver("ikm.c"), ["flat"]), split=8)


@prop("C02", "Tree")
def c02(c):
    return c.validate("IkmTrace", c.record(c.build_driver("ikm.c"), ["tree"]), split=8)


@prop("C03", "Quant", "Ladder", "Cluster", "Seed", "Freq", "Copy")
def c03(c):
    c.model("KmeansImpl", workers=8, expect_actions=("MoveBounds", "Reassign"))
    c.model("KmeansImpl", "KmeansLloyd.cfg", workers=8, expect_actions=("Lloyd",))
    return c.validate("KmeansTrace", c.record(c.build_driver("kmeans.c")), split=8)


@prop("E01", "Vlad")
def e01(c):
    return c.validate("EncodeTrace", c.record(c.build_driver("encode.c"), ["vlad"]), split=8)


@prop("E02", "Density", "Ladder", "Step", "Start", "Cluster", "Copy", "Fisher")
def e02(c):
    c.model("MomentsImpl", workers=8, expect_actions=("Take", "Merge"))
    return c.validate("EncodeTrace", c.record(c.build_driver("encode.c"), ["gmm"]), split=8)


@prop("F03", "Octave", "Detect", "Orient", "Descr", "Frame", "Walk", "Again")
def f03(c):
    c.model("SiftCache", workers=4, expect_actions=("First", "Next1", "Detect", "Use"))
    return c.validate("SiftTrace", c.record(c.build_driver("sift.c")), split=16)


@prop("F01", "Image", "Polar", "Perm", "Flip", "Trans", "Render", "Twice")
def f01(c):
    c.model("HogObject", workers=4, expect_actions=("Put", "Extract"))
    return c.validate("HogTrace", c.record(c.build_driver("hog.c")), split=16)


@prop("F02", "Process", "Grid", "Trans", "Mirror", "Again")
def f02(c):
    c.model("DsiftBuffers", workers=4, expect_actions=("Geometry", "Bounds", "Process"))
    return c.validate("DsiftTrace", c.record(c.build_driver("dsift.c")), split=16)


@prop("F05", "Find", "Refine", "Detect", "Suppress", "LapAll", "Hist")
def f05(c):
    c.model("CovImpl", "CovImplFull.cfg" if c.thorough else None, workers=8, expect_actions=("SetOption", "PutImage", "Detect", "Add", "Reset", "Pass"))
    return c.validate("CovTrace", c.record(c.build_driver("cov.c"), ["detect"]), split=24)


@prop("F07", "Patch", "Fits", "Orient", "OrientAll", "Lap", "Affine", "Drop")
def f07(c):
    return c.validate("CovTrace", c.record(c.build_driver("cov.c"), ["frames"]), split=24)


@prop("G05", "Begin", "Alloc", "Realloc", "Free", "Fail", "End")
def g05(c):
    c.model("MemImpl", "MemImplFull.cfg" if c.thorough else None, workers=8, expect_actions=("New", "NewCopy", "Make", "Fail", "Unwind", "Grow", "GrowFails", "AddChild", "DropChild", "Rebuild", "Clear", "Delete"))
    exe = c.build_driver("objects.c", extra=WRAP)
    return c.validate("MemTrace", c.record(exe, ["mem"], tag="m") + c.record(exe, ["fault"], tag="f"))


@prop("G09", "Run")
def g09(c):
    c.model("SameImpl", workers=4, expect_actions=("Earlier", "Agree", "Follow"))
    # variables of the library that hold nothing yet: left alone, cleared, filled
    fs = c.record(c.build_driver("objects.c", extra=WRAP), ["same"], tag="s")
    for fl in ("zero", "pattern"):
        for f in c.record(c.build_driver("objects.c", fl, extra=WRAP), ["once"], tag=fl):
            g = [x for x in fs if os.path.basename(x) == os.path.basename(f)]
            if g:
                with open(g[0], "a") as o:
                    o.write(open(f).read())
            else:
                fs.append(f)
    return c.validate("SameTrace", fs)


@prop("F06", "Process", "Scale", "Settings", "Basic")
def f06(c):
    c.model("LiopRank", workers=4, expect_actions=("Digit",))
    return c.validate("LiopTrace", c.record(c.build_driver("liop.c")), split=16)


@prop("T03", "Binsum", "Search", "Cummax", "Local", "Whistc")
def t03(c):
    return c.validate("BinTrace", c.record_octave("binning.m", mex=["misc/vl_binsum.c", "misc/vl_binsearch.c", "misc/vl_cummax.c", "misc/vl_localmax.c"]), split=8)


@prop("T01", "New", "Sum", "Find", "Doc")
def t01(c):
    c.model("HashImpl", workers=8)
    c.model("HashImpl", "HashImplTwo.cfg", workers=8)
    if c.thorough:
        c.model("HashImpl", "HashImplDeep.cfg", workers=8)
    return c.validate("HashTrace", c.record_octave("ihash.m", mex=["misc/vl_ihashsum.c", "misc/vl_ihashfind.c"]))


@prop("T02", "Hist", "BadMass")
def t02(c):
    c.model("IntHistImpl", workers=8)
    return c.validate("IntHistTrace", c.record_octave("inthist.m", mex=["misc/vl_inthist.c", "misc/vl_sampleinthist.c"]), split=8)


@prop("T05", "Fill")
def t05(c):
    c.model("ErfillImpl", workers=8)
    c.model("ErfillImpl", "ErfillCube.cfg", workers=8)
    return c.validate("ErfillTrace", c.record_octave("erfill.m", mex=["mser/vl_erfill.c"]), split=8)


@prop("M02", "MexMser", "BadOpt")
def m02(c):
    c.model("MserImpl", workers=8, expect_actions=("Enter", "Join"))
    return c.validate("MserTrace", c.record_octave("mexmser.m", mex=["mser/vl_mser.c"]), split=8)


def svm(c, cfg):
    c.model("SvmImpl", workers=8, expect_actions=("DualVisit", "GradVisit", "Report"))
    if c.thorough:
        c.model("SvmImpl", "SvmImplDeep.cfg", workers=8)
    return (c.validate("SvmTrace", c.record(c.build_driver("svm.c")), cfg)
            + c.validate("SvmMexTrace", c.record_octave("svmtrain.m", mex=["misc/vl_svmtrain.c", "misc/vl_homkermap.c"]), cfg, split=8))


@prop("W01", "New", "Start", "Visit", "Report", "End", "Solved", "Order", "Loss", "Train", "Refuse")
def w01(c):
    return svm(c, "SvmProtocol.cfg")


@prop("W02", "New", "Start", "Visit", "Report", "End", "Solved", "Order", "Loss", "Train", "Refuse")
def w02(c):
    return svm(c, "SvmNumbers.cfg")


@prop("F04", "Space", "Equal", "Default")
def f04(c):
    c.model("ScaleImpl", workers=8, expect_actions=("Start", "Fill", "Advance"))
    if c.thorough:
        c.model("ScaleImpl", "ScaleImplDeep.cfg", workers=8)
    return c.validate("ScaleTrace", c.record(c.build_driver("scale.c")), split=16)


@prop("X01", "Run")
def x01(c):
    c.model("CliImpl", workers=8, expect_actions=("Start", "Open", "Fail", "Write", "Finish"))
    exe = c.build_driver("cli.c")
    return c.validate("CliTrace", c.record(exe, [c.build_prog("sift"), c.build_prog("mser")]), split=16)


@prop("N01", "Exp", "Log", "MexExp", "MexLog", "Hat", "Refuse")
def n01(c):
    c.model("RotImpl", workers=4, expect_actions=("Turn",))
    return (c.validate("RotTrace", c.record(c.build_driver("rot.c")), split=12)
            + c.validate("RotTrace", c.record_octave("rot.m", mex=["geometry/vl_rodr.c", "geometry/vl_irodr.c"]), split=4))


@prop("N02", "Map", "Mex", "Refuse")
def n02(c):
    c.model("HomImpl", workers=4, expect_actions=("Start", "Step", "Stop"))
    return (c.validate("HomTrace", c.record(c.build_driver("hom.c")), split=14)
            + c.validate("HomTrace", c.record_octave("hom.m", mex=["misc/vl_homkermap.c"]), split=4))


@prop("T04", "Roc", "Pr", "Det")
def t04(c):
    c.model("CurveImpl", "CurveImplDeep.cfg" if c.thorough else None, workers=8, expect_actions=("Take",))
    return c.validate("CurveTrace", c.record_octave("curves.m", mex=["misc/vl_cummax.c"]), split=12)


@prop("T06", "Dist", "Match", "Refuse")
def t06(c):
    c.model("PairImpl", workers=4, expect_actions=("Both", "First", "Second", "Done"))
    return c.validate("PairTrace", c.record_octave("pairs.m", mex=["misc/vl_alldist.c", "misc/vl_alldist2.c", "sift/vl_ubcmatch.c"]), split=12)


@prop("I04", "Warp", "Affine", "Daffine", "Radial", "Tps", "Wtps", "Interp", "Inverse", "Refuse")
def i04(c):
    c.model("WarpImpl", workers=4, expect_actions=("Before", "After", "Enter", "Halve", "Found"))
    return c.validate("WarpTrace", c.record_octave("warp.m", mex=["imop/vl_imwbackwardmx.c", "imop/vl_tpsumx.c"]), split=12)


@prop("I05", "Smooth", "Integral", "Dist", "Grad", "Up", "Down", "Colour", "Mosaic", "Empty", "Refuse")
def i05(c):
    return c.validate("UtilTrace", c.record_octave("mexutil.m", mex=["imop/vl_imsmooth.c", "imop/vl_imintegral.c", "imop/vl_imdisttf.c"]))


@prop("T07", "Parse", "Over", "Overs", "Columns", "Marg", "Sort", "Special", "Der", "Refuse")
def t07(c):
    return c.validate("HelpTrace", c.record_octave("mexhelp.m"))


@prop("C04", "Match", "Tree", "Near", "Push", "Path", "Links", "Refuse")
def c04(c):
    return c.validate("LearnTrace", c.record_octave("mexlearn.m", mex=["kmeans/vl_kmeans.c", "gmm/vl_gmm.c", "fisher/vl_fisher.c", "vlad/vl_vlad.c", "misc/vl_kdtreebuild.c", "misc/vl_kdtreequery.c", "kmeans/vl_ikmeans.c", "kmeans/vl_ikmeanspush.c", "kmeans/vl_hikmeans.c", "kmeans/vl_hikmeanspush.c", "slic/vl_slic.c", "quickshift/vl_quickshift.c", "harness/vfref.c"]))


@prop("F08", "Sift", "Raw", "Dsift", "Covdet", "Same", "Perm", "Refuse")
def f08(c):
    return c.validate("FeatTrace", c.record_octave("mexfeat.m", mex=["sift/vl_sift.c", "sift/vl_siftdescriptor.c", "sift/vl_dsift.c", "sift/vl_covdet.c", "sift/vl_liop.c", "misc/vl_hog.c", "misc/vl_lbp.c", "harness/vfref.c"]))
