import enum

from . import link, logging  # noqa: F401


class _E(enum.Enum):
    pass


class ProtocolKind(_E):
    REF2K = 1
    SEMI2K = 2
    ABY3 = 3
    CHEETAH = 4
    SECURENN = 5


class FieldType(_E):
    FM32 = 1
    FM64 = 2
    FM128 = 3


class Visibility(_E):
    VIS_PUBLIC = 1
    VIS_SECRET = 2


class DataType(_E):
    DT_I1 = 1
    DT_I8 = 2
    DT_U8 = 3
    DT_I16 = 4
    DT_U16 = 5
    DT_I32 = 6
    DT_U32 = 7
    DT_I64 = 8
    DT_U64 = 9
    DT_F16 = 10
    DT_F32 = 11
    DT_F64 = 12


class SourceIRType(_E):
    XLA = 1
    STABLEHLO = 2


class Share:
    def __init__(self):
        self.meta = b""
        self.share_chunks = []


class RuntimeConfig:
    def __init__(self):
        self.protocol = None
        self.field = None
        self.fxp_fraction_bits = 0
        self.enable_pphlo_profile = False
        self.enable_hal_profile = False
        self.enable_pphlo_trace = False
        self.enable_action_trace = False


class CompilerOptions:
    pass


class CompilationSource:
    def __init__(self, ir_type, ir_txt, input_visibility):
        self.ir_type, self.ir_txt, self.input_visibility = ir_type, ir_txt, input_visibility


class Executable:
    def __init__(self, name="", input_names=(), output_names=(), code=b""):
        self.name = name
        self.input_names = list(input_names)
        self.output_names = list(output_names)
        self.code = code
