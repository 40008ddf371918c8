"""Which models and generators decide which property."""
GEO = {"module": "MCGeo", "cfg": "MCGeo.cfg", "what": "every chain of representation changes over the exact lattice"}
OPSM = {"module": "MCOps", "cfg": "MCOps.cfg", "what": "every composition of up to three (thorough: four) building steps over twelve operators", "workers": 3}
FRM = {"module": "MCFrame", "cfg": "MCFrame.cfg", "what": "every chain of up to three (thorough: four) frame changes over seven frames, direct, inverted and composed", "workers": 3}
FOU = {"module": "MCFour", "cfg": "MCFour.cfg", "what": "every chain of up to three (thorough: four) operations on a lattice of events", "workers": 3}
SPC = {"module": "MCSpace", "cfg": "MCSpace.cfg", "what": "every chain of up to three (thorough: four) re-expressions, rearrangements and member replacements", "workers": 3}
DST = {"module": "MCDist", "cfg": "MCDist.cfg", "what": "every chain of up to four (thorough: six) conversions, sums, scalings and rearrangements of distances", "workers": 3}
AST = {"module": "MCAstro", "cfg": "MCAstro.cfg", "what": "every chain of up to four (thorough: six) class changes and crossings between the two libraries", "workers": 3}
SES = {"module": "MCSess", "cfg": "MCSess.cfg", "what": "every session of up to five (thorough: seven) steps of a machine that keeps the rules and of three that break them", "workers": 3}

PROPS = {
    "P01": {"level": "model_checking", "gen": [{"module": "GenRep"}], "mc": [GEO],
            "note": "exhaustive over charts, ordered pairs and two-step paths; points from an exact rational lattice"},
    "P02": {"level": "model_checking", "gen": [{"module": "GenCanon"}], "mc": [GEO],
            "note": "every component of every class on, inside and outside its limits, every batch position"},
    "P03": {"level": "model_checking", "gen": [{"module": "GenNorm"}], "mc": [GEO],
            "note": "all windings and signs over exact directions; point equality is exact"},
    "P04": {"level": "model_checking", "gen": [{"module": "GenVel"}], "mc": [GEO],
            "note": "all ordered pairs of velocity classes and position forms; exact Jacobians"},
    "P05": {"level": "model_checking", "gen": [{"module": "GenAcc"}], "mc": [GEO],
            "note": "all ordered pairs of acceleration classes, position and velocity forms; exact Jacobians"},
    "P06": {"level": "model_checking", "gen": [{"module": "GenDim"}], "mc": [GEO],
            "note": "every supported lowering and raising, every subset of the optional coordinates"},
    "P07": {"level": "model_checking", "gen": [{"module": "GenArith"}], "mc": [GEO],
            "note": "every ordered pair of representations, every operation, factor sign, number type and operand order"},
    "P10": {"level": "model_checking", "gen": [{"module": "GenArr"}], "mc": [GEO],
            "note": "every class, broadcast component shapes, all index expressions over small batches, walks of array methods"},
    "P08": {"level": "model_checking", "gen": [{"module": "GenEq"}], "mc": [GEO],
            "note": "every class; every component of an element changed in turn, exact unit changes, broadcasting operands"},
    "P09": {"level": "model_checking", "gen": [{"module": "GenUnit"}], "mc": [GEO],
            "note": "every class through four unit systems, two maps and consistent units; operations after conversions"},
    "P11": {"level": "model_checking", "gen": [{"module": "GenVTime"}], "mc": [GEO],
            "note": "every velocity and acceleration class, both operand orders where defined, signs, broadcasting"},
    "P23": {"level": "model_checking", "gen": [{"module": "GenCtor"}], "mc": [GEO],
            "note": "every constructor form of every class over batch shapes; every wrong size and dimension"},
    "P25": {"level": "model_checking", "gen": [{"module": "GenDeriv"}], "mc": [GEO],
            "note": "derivatives of every map between positions, forward and reverse mode, compiled and vectorised"},
    "P24": {"level": "model_checking", "gen": [{"module": "GenConv"}], "mc": [GEO],
            "note": "every class to every quantity type and back over batch shapes and evaluation modes; products of positions; directions"},
    "P12": {"level": "model_checking", "gen": [{"module": "GenApply"}], "mc": [OPSM],
            "note": "every operator on every argument form, representation and evaluation mode"},
    "P13": {"level": "model_checking", "gen": [{"module": "GenInv"}], "mc": [OPSM],
            "note": "every operator and nested composition with its inverse, both orders, and the inverse of the inverse"},
    "P14": {"level": "model_checking", "gen": [{"module": "GenPipe"}], "mc": [OPSM],
            "note": "eighteen ways of writing one sequence over ordered triples of non-commuting operators"},
    "P15": {"level": "model_checking", "gen": [{"module": "GenSimp"}], "mc": [OPSM],
            "note": "every operator and merge pair, trivial and nearly trivial parts, sequences with identities and inverses"},
    "P16": {"level": "model_checking", "gen": [{"module": "GenFrame"}], "mc": [FRM],
            "note": "every pair of a lattice of frames, single-parameter variations, the default frame, all argument forms"},
    "P17": {"level": "model_checking", "gen": [{"module": "GenFour"}], "mc": [FOU],
            "note": "every position class in an event, shared and separate times, timelike, lightlike and spacelike intervals"},
    "P18": {"level": "model_checking", "gen": [{"module": "GenSpace"}], "mc": [SPC],
            "note": "every position class with members in other representations and with shapes of their own; every way in and out"},
    "P19": {"level": "model_checking", "gen": [{"module": "GenDist"}], "mc": [DST],
            "note": "every class, way of writing and conversion over exact lengths, angles and powers of ten; arithmetic with windings"},
    "P20": {"level": "model_checking", "gen": [{"module": "GenAstro"}], "mc": [AST],
            "note": "every astropy class to and from every vector class, with each library's own changes in between; limits, windings, refusals"},
    "P21": {"level": "model_checking", "gen": [{"module": "GenSess", "cfg": "GenSess.cfg", "walks": {"quick": 8, "thorough": 64}}], "mc": [SES],
            "trace": "TraceSess", "joint": True,
            "note": "random walks of the session machine over a pool of every kind of object; all sessions against one table of results"},
    "P22": {"level": "model_checking", "gen": [{"module": "GenMode"}], "mc": [GEO],
            "note": "every class and operation eagerly, element by element, compiled, vectorised, in control flow and under differentiation"},
}
NOT_APPLICABLE = {}
