#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
H = "include/hyperjet/hyperjet.h"
PC = "python/src/common.h"
PM = "python/src/main.cpp"
PS = "python/src/bind_sscalar.cpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


DATA = [dict(name="packed data", meaning="value, gradient, then the upper triangle of the Hessian row by row",
             where=H + " DDScalar::m_data")]

prop("C01", "Arithmetic on hyper-dual numbers propagates exact derivatives",
     "For negation, +, -, * and / between two hyper-dual numbers of equal size, or between one and a plain number on either side, the result's value, gradient and Hessian are those the sum, product and quotient rules give for arbitrary operand values, gradients and Hessians, whenever the divisor is not zero. This holds when floating-point arithmetic is read as exact real arithmetic, for first and second order, for fixed and run-time sizes, and neither operand is changed.",
     ["inputs", "configurations"], "every operand (value, all gradient and Hessian entries), every order, every size up to the stated bound, static and dynamic storage",
     "The doctest cases use two fixed triples of size 3 and the Python cases one pair of size 2; sizes, sign regions, zero entries and the coupling of each Hessian entry with each gradient entry are sampled at a single point.",
     [H], [("binary/unary chain-rule kernels", H + " DDScalar::unary, DDScalar::binary"), ("operator overloads", H + " DDScalar::operator+ - * /")], ["C++ operators", "Python operators"], DATA)

prop("C02", "Elementary functions propagate exact first and second derivatives",
     "For sqrt, cbrt, reciprocal, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, exp, log, log2, log10 and abs of a hyper-dual number, called as a member or as a free function, value, gradient and Hessian of the result are the function's value and its chain-rule derivatives built from the true first and second derivative, for every argument inside the function's open domain and arbitrary incoming gradient and Hessian. This holds when floating-point arithmetic is read as exact real arithmetic, and no intermediate expression is undefined (division by zero, root or logarithm of a negative number) anywhere in that domain.",
     ["inputs", "configurations"], "every argument in the function's open domain, every incoming gradient/Hessian, orders 1 and 2, every size up to the stated bound",
     "Each function is tested at one or two arguments; asin, acos, atan, sin, cos, tan are not tested from Python at all and the hyperbolic functions not from C++.",
     [H], [("per-function derivative formulas", H + " DDScalar::sqrt .. DDScalar::log10, DDScalar::abs"), ("chain rule kernel", H + " DDScalar::unary")], ["member functions", "free functions found by ADL"], DATA)

prop("C03", "pow, atan2, hypot and log(base) propagate exact derivatives",
     "For pow with a plain exponent, atan2 and hypot of two and hypot of three hyper-dual numbers of equal size, and log to a plain base, the result carries the function's value and the chain-rule gradient and Hessian from its true partial derivatives, for all arguments where the function is twice differentiable (atan2: not both arguments zero, otherwise away from the negative real axis; hypot: not all zero; pow: non-zero base, positive unless the exponent is an integer), with arithmetic read as exact real arithmetic and no undefined intermediate. pow with exponent 0, 1, 2, 3 or larger integers is also exact, with finite derivatives, at base zero.",
     ["inputs", "configurations"], "all argument pairs/triples in the domain, arbitrary gradients and Hessians, orders 1 and 2, every size up to the stated bound",
     "One argument pair each is tested; axis-aligned arguments (one argument zero), negative quadrants, zero bases and unequal operands in every slot are not.",
     [H], [("partial derivative formulas", H + " DDScalar::pow, atan2, hypot (2 and 3 arguments), log(base)"), ("binary and ternary kernels", H + " DDScalar::binary, DDScalar::ternary")], ["member functions", "free functions"], DATA)

prop("C04", "Compound assignment equals the plain operator, also on itself",
     "x += y, x -= y, x *= y, x /= y with x a hyper-dual number or sparse scalar and y one of the same kind (and size) or a plain number leave in x exactly what x + y, x - y, x * y, x / y would return (arithmetic read as exact real arithmetic, divisor not zero), return a reference to x and leave y unchanged when y is another object. This includes y being x itself and y being a reference to one of x's own stored entries.",
     ["inputs", "configurations"], "every operand value and every aliasing of the right-hand side with the left-hand side (distinct, same object, reference to an entry of the left-hand side), every order/size up to the bound",
     "The in-place tests use distinct operands only and one sample each.",
     [H], [("operator+=, -=, *=, /=", H + " DDScalar::operator+= .. operator/="), ("operand copy before overwrite", H + " DDScalar::operator*=, operator/=")], ["C++ compound assignment", "Python in-place operators"], DATA)

prop("C05", "Sparse named scalars carry the total differential of every expression",
     "For sparse scalars, every arithmetic operator (plain, mixed with numbers, and compound, including x op= x) and every elementary, pow, atan2, hypot and log function gives the function's value and, for each variable name occurring in any operand, the chain-rule derivative with respect to it; the names of the result are the union of the operands' names and a name that is absent has derivative zero. Values and derivatives are as in exact real arithmetic inside the function's open domain, operands that are not assigned to are unchanged, and the outcome does not depend on how the names hash.",
     ["inputs", "configurations"], "all values and derivatives, all overlap patterns of the operands' name sets up to 3 names each, several hash functions including one with every name colliding",
     "Tests use one pair of operands with identical name sets {x,y,z}, plus one disjoint pair in Python; hash collisions, partial overlap and self-assignment never occur.",
     [H], [("unary/binary/ternary over name maps", H + " SScalar::unary, binary, ternary"), ("operators", H + " SScalar operators and functions")], ["SScalar::f, d(name), size"],
     [dict(name="derivative map", meaning="name -> partial derivative", where=H + " SScalar::m_d")])

prop("C06", "Accessors form one consistent, symmetric view of value and derivatives",
     "The value, gradient, packed-Hessian, (row, column)-Hessian, full-matrix and raw-data accessors of a hyper-dual number all read and write the same entries: h(i,j) equals h(j,i), the packed Hessian is the upper triangle row by row, hm(\"full\") is the symmetric matrix, hm(\"zeros\") its upper triangle with zeros below, any other mode throws. Writing an entry through any setter (f, g, h, set_hm from the upper triangle, the gradient/data views) changes exactly that entry, and reading it back returns the written bits.",
     ["inputs", "configurations"], "every index pair, every stored bit pattern, every order/size up to the bound, and for the index formula every size up to 2^15",
     "Tests read and write size-2 objects only, for which wrong row offsets can still hit the right slot.",
     [H], [("packed index formula", H + " DDScalar::h(i,j), h(i)"), ("matrix conversion", H + " DDScalar::hm, set_hm"), ("views", H + " DDScalar::ag, adata")], ["f,g,h,hm,set_*,ag,adata,ptr,data"], DATA)

prop("C07", "Constructors and factories produce exactly the described number",
     "constant and zero give the value with all derivatives zero, variable i gives the value with a unit gradient in slot i and zero elsewhere, variables gives one such number per value in order, construction from a data list, array or (f, g) / (f, g, hm) stores exactly the given entries, and construction from a plain value gives that value with zero derivatives. The reported size always matches the stored data (data length 1+n, or (n+1)(n+2)/2 for second order), and recovering the size from a data length inverts this exactly, throwing for every length that is not of this form.",
     ["inputs", "configurations"], "every value, every index, every size up to the bound, every data length up to 2^40 for the length/size conversion, static and dynamic storage",
     "Tests construct size-2 objects; the default-constructed and value-constructed dynamic number, dynamic initializer lists, empty data and larger sizes are never built.",
     [H], [("size/length conversion", H + " DDScalar::size_from_data_length, data_length_from_size"), ("constructors and factories", H + " DDScalar constructors, create, empty, zero, constant, variable, variables, from_gradient, from_arrays")], ["size(), data(), f, g, h of the new object"], DATA)

prop("C08", "Padding embeds a number into a larger variable space unchanged",
     "pad_right(m) and pad_left(m) of a run-time sized number of size n <= m give a number of size m whose value, and whose gradient and Hessian entries at the original variables' new positions (shifted by 0 or m-n), are bit-identical to the original's, with every other gradient and Hessian entry zero and the original unchanged. resize(m) gives size m with matching data length and keeps the value.",
     ["inputs", "configurations"], "every stored value, every pair n <= m up to the bound, orders 1 and 2",
     "Tests pad one object from size 2 to 5.",
     [H], [("index walk", H + " DDScalar::pad_left, pad_right, resize")], ["size, f, g, h of the result"], DATA)

prop("C09", "Invalid sizes and incompatible operands are rejected, never read past",
     "With exceptions enabled, every binary or ternary operation and compound assignment on run-time sized numbers of different sizes throws std::runtime_error and leaves its operands unchanged, without reading or writing outside any operand's storage. The same holds for: negative sizes given to factories or resize, a size other than the fixed one, a data list or array whose length is not valid for the type, padding to a smaller size, and evaluating or setting a Hessian with an array of the wrong size.",
     ["inputs", "configurations"], "every ordered pair/triple of sizes up to the bound, every 64-bit size argument, both orders, static and dynamic",
     "Tests cover only wrong size arguments of size-2 static numbers and one wrong data length; mismatched operands are never combined.",
     [H], [("check_equal_size, check_valid_size", H), ("size_from_data_length", H)], ["exception type", "memory accesses"], DATA)

prop("C10", "No operation leaves its storage or returns uninitialised entries",
     "On valid operands, for every public operation of both number types, every memory access stays inside live storage, every entry of the result is initialised, nothing is freed twice and no storage is leaked, also when an exception is thrown. This includes results of default construction and of construction from a plain value for run-time sized numbers, and self-assignment, copies and moves.",
     ["inputs", "configurations"], "every operation, every size from 0 up to the bound, static and dynamic storage",
     "Tests run without sanitizers on sizes 2 and 3; out-of-bounds reads of neighbouring memory and size-0 objects go unnoticed.",
     [H], [("loops over data_length()/size()", H + " DDScalar kernels"), ("value semantics of storage", H + " DDScalar::m_size, m_data; SScalar::m_d")], ["memory model of the symbolic executor"], DATA)

prop("C11", "Comparisons follow the values alone, exactly as for doubles",
     "==, !=, <, >, <=, >= between two numbers, or a number and a plain double on either side, give exactly what the same comparison of the values gives, for every bit pattern including NaN, infinities and signed zeros and whatever the derivatives; this holds for hyper-dual and for sparse scalars. abs returns its argument unchanged, or negated in value and every derivative when the value is below zero.",
     ["inputs", "configurations"], "all 2^64 bit patterns of each value and derivative",
     "Comparisons and abs have no test at all.",
     [H], [("comparison operators and friends", H + " DDScalar::operator== .., SScalar::operator== .."), ("abs", H + " DDScalar::abs, SScalar::abs")], ["bool results", "abs result"])

prop("C12", "eval is the Taylor polynomial (sparse: the linear differential)",
     "eval(d) of a hyper-dual number of size n returns f + g.d for first order and f + g.d + (1/2) d'Hd for second order, H being the full symmetric Hessian, for every d of length n. eval(d) of a sparse scalar returns the sum over the names present in both of derivative times increment. Arithmetic is read as exact real arithmetic.",
     ["inputs", "configurations"], "every data and increment vector, every order/size up to the bound, all name overlaps up to 3 names",
     "One size-3 dynamic second-order sample is tested; first order, static and sparse eval are not.",
     [H], [("DDScalar::eval walk over the packed triangle", H + " DDScalar::eval"), ("SScalar::eval", H + " SScalar::eval")], ["return value"], DATA)

prop("C13", "Order, storage and scalar kind do not change common results",
     "For every operation, a first-order and a second-order number built from the same value and gradient give the same value and gradient; fixed-size and run-time sized numbers give the same value, gradient and Hessian; a sparse scalar gives the same value and, name for slot, the same derivatives as a first-order number; and a free function gives the same as the member function. Results are compared as exact real arithmetic.",
     ["inputs", "configurations"], "every operation and operand, every size up to the bound",
     "Tests compare each representation with its own hard-coded table of rounded numbers, at one point.",
     [H], [("shared kernels selected by TOrder and TSize", H), ("free function overloads", H)], ["value, gradient, Hessian"], DATA)

prop("C14", "Each Python-visible name performs the operation it names",
     "In the Python classes for every order and size, each operator (including reflected and in-place ones), each method and property, each numpy-dispatched alias (arcsin, arctan2, ...), and module-level hypot computes the same-named mathematical operation or accessor of the C++ number with operands in the same order; keyword names and defaults are those documented by the tests and README (f=0, mode='full', row/col/value, new_size, size, data, g, hm, d, base, i, values). Hessian accessors exist for second-order classes only, and hm always gives a two-dimensional size x size array. The same holds for the sparse scalar class.",
     ["inputs", "configurations"], "every bound class (orders 1, 2; dynamic and sizes 0..16; sparse), every bound name, every argument value",
     "Python tests use sizes 2 and dynamic only and never call sin, cos, tan, asin, acos, atan, atan2, abs, comparisons or the sparse class's functions.",
     [PC, PS, PM] + ["python/src/bind_ddscalar_*.cpp"], [("binding template", PC + " bind<T>"), ("sparse bindings", PS), ("class registration", "python/src/bind_ddscalar_*.cpp")], ["Python names and results"])

prop("C15", "variables() yields independent unit-gradient variables of the right kind",
     "variables(values, order) of the Python module returns, for any number of values, a list with one entry per value in order: plain floats for order 0, otherwise numbers of the requested order whose size is the number of values, entry i having value values[i], gradient 1 in slot i and 0 elsewhere, and zero Hessian. The default order is 2, the type is the fixed-size class for 1 to 15 values and the dynamic class beyond, and any order outside 0..2 throws.",
     ["inputs", "configurations"], "every list length from 0 to the bound, every value, every order",
     "Tests call it with 3 and 20 values only.",
     [PM, H], [("size dispatch", PM + " variables"), ("DDScalar::variables", H)], ["returned list"])

prop("C16", "Carrying derivatives never changes the computed value",
     "For negation, +, -, *, hyper-dual and sparse reciprocal, and every elementary, pow, atan2 and hypot function, in plain and compound form, the value part of the result is bit-identical to what the same operation gives on the plain double values of the operands, for every input including NaN, infinities, signed zeros and values outside the domain. It does not depend on gradient or Hessian entries, on order, or on size.",
     ["inputs", "configurations"], "all 2^64 bit patterns of each operand value; math-library functions taken as arbitrary deterministic functions of their argument bits",
     "Tests compare values to about 1e-5 or 1e-7 relative at one finite point.",
     [H], [("f computed by the plain operation", H + " DDScalar and SScalar operators and functions")], ["f()"])

prop("C17", "Text form is the value followed by hj, sparse terms follow the value",
     "Streaming a hyper-dual number writes its value as the stream formats a double, immediately followed by \"hj\", and nothing else. Streaming a sparse scalar writes the value and then for each stored name exactly once its derivative, as ' +c*dname' when the derivative is not negative and ' c*dname' when it is; the text form from to_string and Python repr is the same characters.",
     ["inputs", "configurations"], "every value and derivative bit pattern, all name sets up to 3 names",
     "One hyper-dual sample is tested, no sparse one.",
     [H, PC, PS], [("operator<<", H + " DDScalar, SScalar"), ("to_string", H)], ["characters written"])

prop("C18", "Eigen vector and matrix expressions differentiate like their formulas",
     "For Eigen vectors and matrices whose entries are hyper-dual numbers of equal size, fixed or run-time sized, sum, difference, scaling by plain numbers, entry-wise product, dot and cross product, norm, squared norm and normalisation, sums and products of entries, trace, determinant (up to 3x3), products with plain-number vectors and matrices, and matrix-vector and matrix-matrix products give in every entry the value, gradient and Hessian of the corresponding formula, with arithmetic read as exact real arithmetic (norm: not all entries zero). Excepted for run-time sized numbers are operations in which Eigen turns a plain number into a hyper-dual constant (v *= s, v /= s, entry-wise quotient, inverse, and products in dynamic Eigen matrices through gemv or blocked gemm): such a constant has size 0 and the size check rejects it.",
     ["inputs", "configurations"], "all entries' values, gradients and Hessians; vectors of 2 and 3 entries, number sizes up to the bound",
     "dot, cross and norm are tested at one point for size 3.",
     [H], [("NumTraits and ScalarBinaryOpTraits", H + " namespace Eigen"), ("operators used by Eigen", H)], ["entries of the result"])

prop("C19", "Build switches do not change results on valid input",
     "With HYPERJET_NO_EXCEPTIONS defined, with NDEBUG defined or not, and with or without Eigen included before the header, every operation valid in the default build gives the same results and no assertion fires; with HYPERJET_NO_EXCEPTIONS and assertions on, an invalid size, data length or size mismatch that throws in the default build stops at an assertion instead of continuing.",
     ["configurations", "inputs"], "every combination of the switches, every operation and operand up to the size bound",
     "Only the default build is tested.",
     [H], [("throw_exceptions()", H), ("EIGEN_WORLD_VERSION blocks", H), ("asserts", H)], ["results and assertion failures per configuration"])

prop("C20", "Copies and pickled numbers are equal in every bit and independent",
     "Pickling and unpickling a hyper-dual number through the Python state functions, copying it (copy, deepcopy, C++ copy and assignment) gives a number of the same type with bit-identical size, value, gradient and Hessian, and later changes to either do not show in the other. A pickle state of the wrong shape throws.",
     ["inputs", "configurations"], "every stored bit pattern, orders 1 and 2, dynamic and sizes 0..16",
     "copy is tested on one value, pickle and deepcopy not at all.",
     [PC, H], [("py::pickle functions, __copy__, __deepcopy__", PC), ("value semantics", H)], ["state tuple, restored object"], DATA)

prop("C21", "Array helpers f, d, dd extract value, gradient and Hessian per entry",
     "The Python helpers hyperjet.f, hyperjet.d and hyperjet.dd map over single numbers and arrays of any shape and give, for each entry and in its place, the value, the gradient vector and the full symmetric Hessian matrix of a hyper-dual number (sparse: the value), and for a plain number the number itself, an empty vector and an empty matrix. f keeps every value exactly whatever kinds of entries are mixed; a first-order or sparse number has an empty Hessian.",
     ["inputs", "configurations"], "every entry's value and derivatives, every class the module binds, array shapes and mixtures of kinds up to the bound",
     "Tests use shapes up to (2,2) of one class of size 2 and plain integers.",
     [PM, PC], [("numpy.vectorize lambdas", PM), ("accessors f, g, hm used by them", PC)], ["Python helpers"])

prop("C22", "Results depend on the operands only: no hidden state, no writes behind a reader",
     "What an operation on hyper-dual or sparse numbers returns depends on its operands alone: it is the same whatever was computed before in the program and whatever other threads compute at the same time. An operation writes only to its result (and to the left operand when it is a modifying one): reading accessors, functions, operators and evaluation never modify an operand or unsynchronised storage outside it, so several threads may use the same numbers as operands at once, and every sequence and every interleaving of calls on different results gives what each call gives alone.",
     ["inputs", "schedules", "histories"], "every operation and operand up to the size bound, after any other operation, with operands shared by any number of threads",
     "The library never says so, but every caller that stores numbers in containers, evaluates in parallel or reorders code relies on it; tests are single-threaded and call each function once or twice.",
     [H], [("value semantics, const members", H + " DDScalar, SScalar"), ("free functions", H)], ["results, writes to shared memory"])

prop("C23", "Single and extended precision numbers obey the same formulas",
     "The number types are templates over the scalar type: for DDScalar and SScalar over float and over long double, arithmetic, compound assignment and mathematical functions give the same values, gradients and Hessians as stated for double in C01-C05, in every storage kind and size. Rounding in the chosen type is excluded; constants, exponents, divisions and integer parts are not, so no operation may be cut to integers, use a double-only shortcut or drop a term because the scalar is narrower or wider than a double.",
     ["inputs", "configurations"], "every operation of C01-C05, operand and operand storage kind up to the size bound, over float and long double",
     "The scalar type is a template parameter that no test and no binding ever sets to anything but double.",
     [H], [("TScalar of DDScalar", H + " DDScalar<TOrder, TScalar, TSize>"), ("TScalar of SScalar", H + " SScalar<TScalar>")], ["values", "derivatives"])

prop("C24", "Eigen functions, extrema and linear solvers differentiate like their formulas",
     "For Eigen vectors and matrices of hyper-dual numbers of equal size, entry-wise functions (absolute value, roots, trigonometric, hyperbolic, exp, log, powers, products and quotients), 1-norm, maximum norm, extrema and their positions, entry-wise minimum and maximum, comparisons, selection, constants and identities, mean, and for fixed-size numbers the solution of linear systems by inverse, triangular, LU, Cholesky (LLT, LDLT) and Householder QR solvers give the value, gradient and Hessian of the corresponding formula, arithmetic read as exact. Extrema and absolute values need distinct or nonzero values, systems a nonzero determinant (LDLT and QR: no pivot, reflection or solution entry that is zero); NumTraits and numeric_limits give the scalar's epsilon, extremes and smallest number. Run-time sized numbers are excepted where Eigen makes constants of its own (inverse, mean, solvers).",
     ["inputs", "configurations"], "all entries' values, gradients and Hessians, every order of the values, sign and pivot; vectors of 1 to 3 entries, systems of 2 equations, number sizes up to the bound",
     "No test applies an Eigen function, extremum or solver to matrices of numbers.",
     [H], [("NumTraits and ScalarBinaryOpTraits", H + " namespace Eigen"), ("comparison operators, functions found by Eigen", H)], ["entries of the result", "positions and counts"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
