"""The checks: which models, drivers and trace specifications decide what."""


def memgen(focus, n):
    return dict(module="MemGen", cfg="GenMem.cfg", depth=36, n=n,
                env={"FOCUS": focus})


def mem(focus, n=(1500, 12000)):
    return dict(
        level="model_checking",
        models=[("MemGen", "MCMem.cfg")],
        models_thorough=[("MemGen", "MCMem_thorough.cfg")],
        drivers=[dict(driver="mem", trace="TraceMem", gen=memgen(focus, n))])


def fn(driver, trace, n, gen=None, mc=None, **kw):
    """A driver with its own random inputs; gen: the module TLC checks exhaustively."""
    d = dict(level="model_checking",
             drivers=[dict(driver=driver, trace=trace, n=n, **kw)])
    if gen:
        d["models"] = [(gen, "MC%s.cfg" % mc)]
        d["models_thorough"] = [(gen, "MC%s_thorough.cfg" % mc)]
    return d


PROPS = {
    "P01": mem("life"),
    "P02": mem("view"),
    "P03": mem("data"),
    "P04": mem("check"),
    "P05": dict(
        level="model_checking",
        models=[("TimersGen", "MCTimers.cfg")],
        models_thorough=[("TimersGen", "MCTimers_thorough.cfg")],
        drivers=[dict(driver="timers", trace="TraceTimers",
                      gen=dict(module="TimersGen", cfg="GenTimers.cfg", depth=40,
                               n=(900, 8000)))]),
    "P06": fn("weighting", "TraceWeighting", (600, 8000), "WeightingGen", "Weighting"),
    "P07": fn("tiles", "TraceTiles", (620, 8000), "TilesGen", "Tiles"),
    "P08": fn("clamp", "TraceClamp", (1200, 12000), "ClampGen", "Clamp"),
    "P13": fn("sizes", "TraceSizes", (300, 3000), "SizesGen", "Sizes"),
    "P12": dict(
        level="model_checking",
        models=[("FFTGen", "MCFFT.cfg")], models_thorough=[("FFTGen", "MCFFT_thorough.cfg")],
        drivers=[dict(driver="fft", trace="TraceFFT", n=(500, 8000)),
                 dict(driver="fft", trace="TraceFFT", n=(250, 3000), variant="native")]),
    "P11": fn("conv", "TraceConv", (320, 4000), "ConvGen", "Conv"),
    "P09": fn("hogbom", "TraceHogbom", (640, 8000), "HogbomGen", "Hogbom"),
    "P10": fn("msclean", "TraceMSClean", (160, 2400), "MSCleanGen", "MSClean"),
    "P15": fn("dft", "TraceDft", (400, 6000), "DftGen", "Dft"),
    "P16": fn("gutil", "TraceGridUtil", (900, 12000), "GridUtilGen", "GridUtil"),
    "P17": fn("direct", "TraceDirect", (280, 4000), "DirectGen", "Direct"),
    "P23": fn("pswf", "TracePswf", (400, 6000), "PswfGen", "Pswf"),
    "P26": fn("gridcorr", "TraceGridCorr", (800, 12000), "GridCorrGen", "GridCorr"),
    "P20": fn("custom", "TraceCustom", (900, 12000), "CustomGen", "Custom"),
    "P21": fn("flagger", "TraceFlagger", (1200, 16000), "FlaggerGen", "Flagger"),
    "P22": fn("beam", "TraceBeam", (700, 8000), "BeamGen", "Beam"),
    "P14": fn("swiftly", "TraceSwiftly", (240, 8000), "SwiftlyGen", "Swiftly"),
    "P18": fn("wtower", "TraceWTower", (320, 5000), "WTowerGen", "WTower"),
    "P19": fn("wstack", "TraceWStack", (300, 3000), "WStackGen", "WStack",
              racy=True, retries=6),
    "P24": dict(
        level="model_checking",
        models=[("ArgsGen", "MCArgs.cfg")],
        models_thorough=[("ArgsGen", "MCArgs_thorough.cfg")],
        drivers=[dict(driver="args", trace="TraceArgs",
                      gen=dict(module="ArgsGen", cfg="SweepArgs.cfg", depth=1, n=(1, 1), all=True)),
                 dict(driver="args", trace="TraceArgs",
                      gen=dict(module="ArgsGen", cfg="GenArgs.cfg", depth=40, n=(240, 4000)))]),
    "P25": dict(
        level="model_checking",
        models=[("PyMemGen", "MCPyMem.cfg")],
        models_thorough=[("PyMemGen", "MCPyMem_thorough.cfg")],
        drivers=[dict(driver="pymem", trace="TracePyMem", py=True,
                      gen=dict(module="PyMemGen", cfg="GenPyMem.cfg", depth=60, n=(200, 4000)))]),
    "P27": dict(
        level="model_checking",
        models=[("BindingGen", "MCBinding.cfg")],
        models_thorough=[("BindingGen", "MCBinding_thorough.cfg")],
        drivers=[dict(driver="binding", trace="TraceBinding", py=True,
                      gen=dict(module="BindingGen", cfg="SweepBinding.cfg", depth=1, n=(1, 1), all=True)),
                 dict(driver="binding", trace="TraceBinding", py=True,
                      gen=dict(module="BindingGen", cfg="GenBinding.cfg", depth=30, n=(100, 2000)))]),
    "P28": dict(
        level="model_checking",
        models=[("SkyGen", "MCSky.cfg")],
        models_thorough=[("SkyGen", "MCSky_thorough.cfg")],
        drivers=[dict(driver="sky", trace="TraceSky", py=True,
                      gen=dict(module="SkyGen", cfg="GenSky.cfg", depth=60, n=(150, 3000)))]),
    "P29": fn("height", "TraceHeight", (1500, 15000), "HeightGen", "Height", omp="1"),
    "P30": dict(
        level="model_checking",
        models=[("PureGen", "MCPure_%s.cfg" % k) for k in ("pure", "memo", "scratch", "plan")],
        models_thorough=[("PureGen", "MCPure_%s_thorough.cfg" % k)
                         for k in ("pure", "memo", "scratch", "plan")],
        drivers=[dict(driver="pure", trace="TracePure", variant=v, racy=True, retries=4,
                      gen=dict(module="PureGen", cfg="GenPure.cfg", depth=11, n=n))
                 for v, n in (("rel", (360, 6000)), ("tsan", (150, 2000)))]),
    "P31": dict(
        level="model_checking",
        models=[("DataModelGen", "MCDataModel.cfg")],
        models_thorough=[("DataModelGen", "MCDataModel_thorough.cfg")],
        drivers=[dict(driver="datamodel", trace="TraceDataModel",
                      gen=dict(module="DataModelGen", cfg="GenDataModel.cfg", depth=41, ops=3,
                               n=(300, 6000)))]),
    "P32": dict(
        level="model_checking",
        models=[("LogGen", "MCLog_%s.cfg" % k) for k in ("good", "pieces", "twoclocks")],
        models_thorough=[("LogGen", "MCLog_%s_thorough.cfg" % k) for k in ("good", "pieces", "twoclocks")],
        drivers=[dict(driver="logging", trace="TraceLog", n=(600, 8000), racy=True, retries=4)]),
}
