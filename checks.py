"""Which tests decide which property, in which build configurations.

A run is one test pattern of one harness package in one configuration:
default (AVX2 assembly), purego (generic code by build tag), cpuoff (assembly
dispatch turned off at run time), race (data race detector). Shards split the
case budget of a run over processes; div divides the budget.
"""

CONFIGS3 = ("default", "purego", "cpuoff")


def tri(pkg, tests, shards=2, div=3):
    """The default configuration at full budget, the two generic ones at a fraction."""
    return [dict(pkg=pkg, tests=tests, config="default", shards=shards),
            dict(pkg=pkg, tests=tests, config="purego", shards=max(1, shards // 2), div=div),
            dict(pkg=pkg, tests=tests, config="cpuoff", shards=max(1, shards // 2), div=div)]


def one(pkg, tests, shards=4, config="default", **kw):
    return [dict(pkg=pkg, tests=tests, config=config, shards=shards, **kw)]


CHECKS = {
    "C01": dict(runs=tri("mathp", "TestVecArith")),
    "C02": dict(runs=tri("mathp", "TestVecShape")),
    "C03": dict(runs=one("mathp", "TestNum", shards=2)),
    "C04": dict(runs=tri("mathp", "TestPolyMul", shards=4)),
    "C05": dict(runs=tri("mathp", "TestPolyMap")),
    "C06": dict(runs=tri("mathp", "TestPolyFFT", shards=4)),
    "C07": dict(runs=one("mathp", "TestUniformBinary")),
    "C08": dict(runs=one("mathp", "TestGaussian") + one("mathp", "TestGaussianVolume", shards=8)),
    "C10": dict(runs=tri("tfhep", "TestGadget")),
    "C11": dict(runs=one("tfhep", "TestEncode")),
    "C12": dict(runs=one("tfhep", "TestEncrypt")),
    "C13": dict(runs=one("tfhep", "TestPublic")),
    "C14": dict(runs=tri("tfhep", "TestLinear|TestConvert", shards=4)),
    "C15": dict(runs=tri("tfhep", "TestProduct", shards=4)),
    "C16": dict(runs=one("tfhep", "TestKeySwitch")),
    "C17": dict(runs=one("tfhep", "TestExtract")),
    "C18": dict(runs=one("tfhep", "TestLUT")),
    "C19": dict(runs=tri("tfhep", "TestBlindRotate", shards=4)),
    "C20": dict(runs=one("tfhep", "TestBootstrap", shards=8)),
    "C21": dict(runs=one("tfhep", "TestChain", shards=4)),
    "C22": dict(runs=one("tfhep", "TestGates", shards=4)),
    "C23": dict(runs=one("tfhep", "TestKeys", shards=8)),
    "C24": dict(runs=one("tfhep", "TestSerial", shards=4) + one("mkp", "TestSerial", shards=4)),
    "C25": dict(runs=one("tfhep", "TestSerialFaults", shards=4) + one("mkp", "TestSerialFaults", shards=4)),
    "C26": dict(runs=one("tfhep", "TestCopy", shards=4) + one("mkp", "TestCopy", shards=4)),
    "C27": dict(runs=one("prm", "TestParams", shards=4)),
    "C28": dict(runs=tri("hist", "TestPurity", shards=4)),
    "C29": dict(runs=tri("hist", "TestAlias", shards=4)),
    "C30": dict(runs=one("hist", "TestConcurrent|TestConcurrentEncrypt", shards=4) +
                one("hist", "TestConcurrent|TestConcurrentEncrypt", shards=6, config="race", div=2) +
                one("tfhep", "TestKeys", shards=4, config="race", div=20) +
                one("mkp", "TestKeys|TestBlindRotate|TestGates", shards=2, config="race", div=10) +
                one("xp", "TestFHEWKeys", shards=1, config="race", div=10) +
                one("xp", "TestRows|TestSanitizeBootstrap", shards=4, config="race", div=5)),
    "C31": dict(runs=one("mkp", "TestEncrypt|TestUni", shards=4)),
    "C32": dict(runs=tri("mkp", "TestProduct|TestLinear|TestExtract", shards=4)),
    "C33": dict(runs=tri("mkp", "TestBlindRotate|TestBootstrap|TestKeySwitch", shards=4)),
    "C34": dict(runs=one("mkp", "TestGates", shards=4)),
    "C35": dict(runs=one("mkp", "TestKeys", shards=4)),
    "C40": dict(runs=one("xp", "TestBFVMul", shards=4)),
    "C41": dict(runs=one("xp", "TestBFVPermute", shards=4)),
    "C42": dict(runs=one("xp", "TestCircuit", shards=8)),
    "C43": dict(runs=one("xp", "TestFHEWKeys|TestFHEWRotate|TestFHEWBootstrap", shards=8)),
    "C44": dict(runs=one("xp", "TestManyLUTTable|TestManyLUTRotate|TestManyLUTBootstrap", shards=8)),
    "C45": dict(runs=one("xp", "TestSanitizeReRand|TestSanitizeBootstrap|TestSanitizeParts", shards=8)),
    "C46": dict(runs=one("xp", "TestCDTSampler|TestCDTVolume", shards=8)),
    "C47": dict(runs=one("npar", "TestNoise|TestFailure", shards=4)),
    "C48": dict(runs=one("tfhep", "TestPublicFresh", shards=4)),
    "C49": dict(runs=one("xp", "TestRows", shards=4)),
    "C51": dict(runs=tri("mathp", "TestLengths")),
    "C52": dict(runs=one("prec", "TestPreconditions", shards=4)),
    "C53": dict(runs=one("prec", "TestShapes", shards=4)),
    "C54": dict(runs=one("hist", "TestSeparate", shards=4) +
                one("hist", "TestSeparate", shards=6, config="race", div=4)),
    "C50": dict(runs=one("npar", "TestDefaults", shards=4)),
}
