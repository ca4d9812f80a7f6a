MA_ = "ms-utils/math/"
P("M01", "Linear solvers solve every positive definite system and refuse the others",
  "For every symmetric positive definite admittance matrix, the LDU decomposition reproduces the matrix, solving leaves inputs unchanged and gives a residual at rounding level, in-place solving and inversion agree, decomposing a row subset equals decomposing that submatrix and touches nothing else; a matrix with a non-positive pivot is refused with an exception. When the SOR solver reports convergence the solution is converged, and it never exceeds its iteration limit or changes the matrix.",
  ["inputs"], "all admittance matrices and right-hand sides, densities and conductance spreads", "Tests use two or three fixed 3x3 and 4x4 systems.",
  [MA_ + "linear_algebra/CholeskyLdu.cpp", MA_ + "linear_algebra/Sor.cpp"], [("LDU", "CholeskyLdu::Decompose, Solve, Invert"), ("SOR", "Sor::solve")], ["returned matrices, solutions and iteration counts"], [D("d_math", 8000, 200000, 1000)], "Up to 30x30 (60 in thorough), conductances 1e-4..1e4.")
P("M02", "Root finders return true roots within tolerance or refuse, and Lambert W inverts",
  "Brent's method refuses intervals without a sign change and otherwise returns a point inside the interval with a sign change within tolerance, within its iteration limit; Laguerre's method returns a root of the polynomial; both Lambert W branches invert w*exp(w) on their domain, the fast forms stay within their documented 3 percent error, and out-of-range inputs are refused.",
  ["inputs"], "all functions, intervals, tolerances, polynomials and arguments", "Tests check a handful of fixed functions and inputs.",
  [MA_ + "root_finding/BrentMethod.cpp", MA_ + "root_finding/LaguerreMethod.cpp", MA_ + "elementary_functions/LambertW.cpp"], [("root finding", "BrentMethod::solve, LaguerreMethod::solve"), ("Lambert W", "LambertW::solveW0, solveW1, fastSolveW0, fastSolveW1")], ["returned roots and exceptions"], [D("d_math", 20000, 1000000, 1000)], "Inputs within 1e-6 of the -1/e branch point are judged only for range; ninth-order roots may hit the iteration limit.")
P("M03", "Curve fits and tables return their definition, clamp, and reject bad ranges",
  "Every curve fit and interpolation table, for any accepted parameters, returns its defining formula (or the interpolation of its table) anywhere in range, in any order of reads, for ascending and descending axes of any size and after re-initialization; clamps inputs to its range, refuses out-of-range inputs in the checked form, reports whether it is initialized, and refuses empty ranges, unordered tables and ranges that contain a pole it can detect. Reverse tables return the argument that reproduces the given value.",
  ["inputs", "histories"], "all parameters, tables, axis directions, read orders and re-initializations", "Tests use one table per class, odd sizes only, read in one order.",
  [MA_ + "approximation/TsApproximation.cpp", MA_ + "approximation/TsLinearInterpolator.cpp", MA_ + "approximation/TsBilinearInterpolator.cpp", MA_ + "approximation/TsBilinearInterpolatorReverse.cpp", MA_ + "approximation/RationalFit.cpp"], [("tables", "TsLinearInterpolator::evaluate, TsBilinearInterpolator::evaluate, TsBilinearInterpolatorReverse::evaluate"), ("fits", "ms-utils/math/approximation/*Fit.cpp init and evaluate")], ["returned values, exceptions, initialized flag"], [D("d_math", 20000, 600000, 1000)], "Pole detection is judged for the fits that check for it (inverse, exponential, quotient, rational).")
P("M04", "Unit conversions and protected math functions are exact, inverse and in range",
  "Every unit conversion equals its physical definition, conversion pairs invert each other, invalid conversions are refused; the angle functions return a congruent angle in their documented range; limits, quantization, protected functions and fast power satisfy their documented definition for all magnitudes; table random numbers are deterministic per seed and within bounds for any seed.",
  ["inputs"], "all inputs, magnitudes and seeds", "Tests check one or two values per function.", [MA_ + "UnitConversion.hh", MA_ + "UnitConversion.cpp", MA_ + "MsMath.hh", MA_ + "TS_random.cpp"], [("conversions", "UnitConversion::convert"), ("protected math", "MsMath")], ["returned values"], [D("d_math", 20000, 1000000, 200)], "Angles within the one-or-two turns the functions document.")
P("M05", "Segment intersection tests agree with geometry",
  "A line segment is reported to intersect a triangle, sphere, spheroid or capped cylinder exactly when it does, whichever end or winding is given, and the reported point lies on the segment and on the shape where the segment enters it.",
  ["inputs"], "all segments and shapes away from grazing contact", "These routines are not built by the test suite here at all.", [MA_ + "intersect/LineSegmentIntersect.cpp"], [("intersection", "LineSegmentIntersect::triangle, cylinder, sphere, spheroid")], ["verdict and intersection point"], [D("d_math", 20000, 1000000, 1000)], "JEOD's Vector3, which is not available here, is replaced by a stand-in with the same operations.")
P("M06", "Unit, time, element-equation and combustion utilities give the physical answer",
  "Every C and C++ unit conversion and constant equals its physical definition and pairs invert each other; a mission timer counts down and up with each display field in step; chemical reactions balance and compound and material tables agree with each other; saturation temperature and heat of vaporization fits follow their formulas and refuse what is out of range; the C matrix solver reproduces its matrix or refuses. Methane combustion burns exactly the flammable mixtures, keeps every element and the enthalpy (the entropy when it expands), and its flame temperature, weight and composition are those of chemical equilibrium.",
  ["inputs", "histories"], "all arguments, timer histories, compounds, matrices, mixtures, pressures and temperatures", "The conversions, timers and solver have no tests here; combustion is tested for a few recorded mixtures.",
  ["ms-utils/units/TS_conversions.c", "ms-utils/simulation/timer/TS_timer.c", "ms-utils/properties/CombustCH4.cpp", "ms-utils/properties/Combust.cpp", "ms-utils/properties/*"],
  [("conversions", "TS_convert_*"), ("timer", "TS_timer_update"), ("combustion", "Combust::updateCombustionMixture, updateRecombinationMixture, CombustCH4::solveElemPotEqns")],
  ["returned values, timer fields, and combustion products"], [D("d_util", 12000, 600000, 15000)],
  "The equilibrium oracle uses the model's own species data. In the band of oxidizer ratios the model interpolates across, only temperature and weight are judged, loosely.")
P("P01", "Configuration text and XML are read back as written, and bad text is refused",
  "An XML document built, printed in any style, saved, parsed, streamed, copied or edited holds the same elements, attributes, text, character data and comments in the same order and links; a damaged or truncated document in any encoding is read or refused with a reason, without memory errors, aborts or endless loops. A text file is read line by line, with comments and separators, as its definition says, and number conversions accept numbers only; an XML file search returns exactly the XML files of a directory, within its limit.",
  ["inputs"], "all documents, encodings, damage, text files and directories", "Tests parse a few fixed files.",
  ["ms-utils/parsing/tinyxml/tinyxmlparser.cpp", "ms-utils/parsing/tinyxml/tinyxml.cpp", "ms-utils/parsing/ParseTool.cpp", "ms-utils/parsing/*"],
  [("XML", "TiXmlDocument::Parse, LoadFile, operator>>, TiXmlPrinter"), ("lines", "ParseTool"), ("search", "XmlFileSearch::searchDirectory")],
  ["trees, printed text, errors and file lists"], [D("d_parse", 12000, 400000, 6000, case_limit=20)],
  "Text is generated without what TinyXML documents it condenses (runs of white space in text).")
