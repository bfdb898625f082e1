#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts can be edited as text)."""
import json, os
M="crates/minikalman/src/"
def P(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=[M+f for f in files],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=M+b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
props=[]
def add(*a,**k): props.append(P(*a,**k))

add("C01","Prediction computes x' = A·x and P' = A·P·Aᵀ + Q",
 "A prediction step of the regular Kalman filter replaces the state by A·x and the (symmetric) estimate covariance by A·P·Aᵀ + Q, for whatever model and estimate it holds. It gives the same result through the filter's own method and through the generic filter trait, for every number of states and for every kind of backing storage.",
 ["inputs","configurations"],"all real-valued A, x, symmetric P and Q; all state counts; heap, array and borrowed storage",
 "Unit tests run three or four fixed numeric models (a 3-state falling body) and compare a few digits; they never vary all entries of A, P and Q nor the dimension.",
 ["kalman/regular.rs","matrix/traits.rs"],[("predict / predict_P","kalman/regular.rs"),("mult_rowvector, mult, mult_transb","matrix/traits.rs")],
 [("x,P","state estimate and its covariance","RegularKalman")],["state_vector()","estimate_covariance()"])
add("C02","Tuned prediction scales the propagated covariance by 1/lambda^2 only",
 "Prediction with a tuning factor lambda replaces the state exactly as an untuned prediction does and the covariance by (A·P·Aᵀ)/lambda² + Q, in both the regular and the extended filter. With lambda = 1 it equals the untuned prediction.",
 ["inputs","configurations"],"all real lambda != 0, models and estimates; regular and extended filter",
 "The tests use one lambda on one model and mostly check that the call does not fail.",
 ["kalman/regular.rs","kalman/extended.rs","matrix/traits.rs"],[("predict_tuned / predict_P_tuned","kalman/regular.rs"),("predict_tuned_nonlinear","kalman/extended.rs"),("multscale_transb","matrix/traits.rs")],
 (),["state_vector()","estimate_covariance()"])
add("C03","Applying a control input adds B·u and B·Q·Bᵀ",
 "Applying a control input adds B·u to the state and B·Q·Bᵀ to the estimate covariance, where B, u and Q are the control's current matrices, through every public way of applying it. Applying it again adds the same amounts again.",
 ["inputs","histories","configurations"],"all real B, u, symmetric Q and estimates; all state and control counts; repeated application",
 "Tests apply one fixed control to one model.",
 ["controls.rs","kalman/regular.rs","matrix/traits.rs"],[("apply_control / apply_to","controls.rs"),("control","kalman/regular.rs"),("multadd_rowvector, multadd_transb","matrix/traits.rs")],
 (),["state_vector()","estimate_covariance()"])
add("C04","A linear measurement update is the exact Kalman correction",
 "For a positive definite innovation covariance S = H·P·Hᵀ + R, a correction replaces the state by x + K·(z − H·x) and the covariance by P − K·H·P, with K = P·Hᵀ·S⁻¹ and all right-hand sides taken before the step. This holds through every public way of applying the measurement and for every number of states and observations.",
 ["inputs","configurations"],"all real x, symmetric P and R with S positive definite, H, z; all state/observation counts",
 "Tests correct one fixed model a few times with one-dimensional measurements and compare rounded numbers.",
 ["observations/regular.rs","kalman/regular.rs","matrix/traits.rs"],[("correct","observations/regular.rs"),("correct","kalman/regular.rs"),("cholesky_decompose_lower, invert_l_cholesky","matrix/traits.rs")],
 (),["state_vector()","estimate_covariance()"])
add("C05","Extended prediction applies f to the a-priori state exactly once",
 "A nonlinear prediction calls the user's transition function exactly once, passing it the unmodified current state, and the state afterwards is exactly what the function wrote, also where those numbers are NaN or infinite. The covariance becomes F·P·Fᵀ + Q for the currently stored Jacobian F.",
 ["inputs","histories"],"all states, symmetric covariances, Jacobians and transition functions (an uninterpreted function of the state)",
 "Tests use one concrete transition function and cannot see how often or with what it is called for others.",
 ["kalman/extended.rs"],[("predict_nonlinear","kalman/extended.rs")],
 (),["closure arguments","state_vector()","estimate_covariance()"])
add("C06","Extended correction uses h(x) of the a-priori state exactly once",
 "A nonlinear correction calls the user's observation function exactly once with the unmodified a-priori state, whatever numbers it holds, and forms the innovation z − h(x). State and covariance become x + K·(z − h(x)) and P − K·H·P with K = P·Hᵀ·S⁻¹, S = H·P·Hᵀ + R, for the currently stored Jacobian H, whenever S is positive definite.",
 ["inputs","configurations"],"all states, symmetric covariances, Jacobians, measurements and observation functions with S positive definite",
 "Tests use one concrete radar-like model and tolerate loose numeric error.",
 ["observations/extended.rs","kalman/extended.rs","matrix/traits.rs"],[("correct_nonlinear / update_with_innovation","observations/extended.rs"),("correct_nonlinear","kalman/extended.rs")],
 (),["closure arguments","state_vector()","estimate_covariance()"])
add("C07","Filter steps never modify the model or the inputs",
 "Predicting, applying a control or correcting never changes the state transition (or Jacobian), process noise, control matrix, control vector, control noise, observation matrix, measurement or measurement noise the user supplied. Reading matrices through the accessors returns exactly what the user last stored there.",
 ["inputs","histories"],"every step kind, all values, through owned, boxed and borrowed storage",
 "Tests look at the estimate only, never comparing the model matrices before and after.",
 ["kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs"],
 [("predict, control, correct","kalman/regular.rs"),("update_with_innovation","observations/extended.rs"),("apply_control","controls.rs")],(),["all read accessors"])
add("C08","A step depends only on current values, never on scratch or history",
 "The result of any filter step is determined by the current estimate, model, control and measurement values: the contents of temporary buffers, earlier steps, and other filters that used the same control or measurement object have no influence, even where the leftovers are NaN or infinite. Changing a matrix or vector through its mutable accessor takes effect in the next step.",
 ["inputs","histories"],"arbitrary (symbolic) contents of every temporary buffer; all step sequences up to the stated length with every value replaced in between",
 "Tests start from zeroed temporaries and mostly perform a single step or a fixed loop with unchanged matrices.",
 ["kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs"],
 [("predict","kalman/regular.rs"),("correct","observations/regular.rs"),("apply_control","controls.rs")],
 [("temp_P, temp_BQ, temp_HP, temp_PHt, temp_KHP, temp_S_inv, y, S, K, predicted_x","scratch storage","filter, control and observation objects")],["state_vector()","estimate_covariance()"])
add("C09","The extended filter with linear functions equals the regular filter",
 "When the transition function is multiplication by the stored Jacobian and the observation function is multiplication by the stored observation Jacobian, the extended filter's prediction, tuned prediction and correction give the same state and covariance as the regular filter's on the same values.",
 ["inputs","histories"],"all linear models and estimates, sequences of predict and correct steps",
 "No test compares the two implementations.",
 ["kalman/regular.rs","kalman/extended.rs","observations/regular.rs","observations/extended.rs"],[("predict_nonlinear, correct_nonlinear","kalman/extended.rs"),("predict, correct","kalman/regular.rs")],
 (),["state_vector()","estimate_covariance()"])
add("C10","The covariance stays symmetric and moves in the right direction",
 "From a symmetric covariance every step leaves a symmetric covariance. With positive semidefinite noise, predicting keeps it positive semidefinite, a control input never lowers it, and a correction leaves it positive semidefinite and never larger (in the matrix order) than before.",
 ["inputs"],"all symmetric / positive semidefinite P, Q, R and all A, B, H with S positive definite",
 "Tests inspect individual covariance entries of one model, never the matrix order over all models.",
 ["kalman/regular.rs","observations/regular.rs","controls.rs","matrix/traits.rs"],[("predict, correct","kalman/regular.rs"),("correct","observations/regular.rs"),("apply_control","controls.rs")],
 (),["estimate_covariance()"])
add("C11","Independent measurements may be applied jointly or one by one",
 "For measurements with uncorrelated noise, applying them one after the other in either order gives the same state and covariance as applying them as one joint measurement.",
 ["inputs","histories"],"all models and values with a positive definite joint innovation covariance and diagonal R",
 "No test combines several observation objects on one filter.",
 ["observations/regular.rs","kalman/regular.rs","matrix/traits.rs"],[("correct","observations/regular.rs")],(),["state_vector()","estimate_covariance()"])
add("C12","Matrix products compute the products they name",
 "Each multiplication operation (plain, buffered, matrix–vector, with a transposed second factor, and their accumulating and scaling variants) stores exactly the product, sum with the previous target, or scaled product it names, for every matrix shape. The operands are unchanged and previous contents of the target or the auxiliary buffer have no influence except where accumulation is named, NaN and infinite leftovers included.",
 ["inputs","configurations"],"all entries and all conforming shapes up to the stated size, including non-square, single row and single column",
 "Tests multiply one or two fixed small matrices per operation.",
 ["matrix/traits.rs"],[("mult, mult_buffered, mult_rowvector, multadd_rowvector, mult_transb, multadd_transb, multscale_transb","matrix/traits.rs")],(),["target matrix contents"])
add("C13","Matrix addition and subtraction are elementwise and write one target",
 "Each addition or subtraction operation stores in its documented target the elementwise sum or difference with the documented operand order, for every shape, and leaves the other operand unchanged.",
 ["inputs","configurations"],"all entries and shapes up to the stated size",
 "Tests add one pair of small matrices; operand order and non-square shapes are not covered.",
 ["matrix/traits.rs"],[("sub, add_inplace_a, add_inplace_b, sub_inplace_a, sub_inplace_b","matrix/traits.rs")],(),["operand and target contents"])
add("C14","Cholesky decomposition succeeds exactly on positive definite matrices",
 "On a symmetric matrix the decomposition reports success exactly if the matrix is positive definite. On success the result is the lower triangular factor with positive diagonal whose product with its transpose is the input, with zeros above the diagonal; it never reports success with a non-finite factor for finite floating-point input.",
 ["inputs","configurations"],"all symmetric real matrices up to the stated size, positive definite or failing at any pivot; all finite single-precision inputs for the acceptance decision at size 2 and 3",
 "Tests decompose one positive definite matrix; the rejection path at each pivot and NaN handling are unexercised.",
 ["matrix/traits.rs"],[("cholesky_decompose_lower","matrix/traits.rs")],(),["return value","matrix contents"])
add("C15","Inversion of a Cholesky factor yields the inverse of the original matrix",
 "Given a lower triangular factor with nonzero diagonal, the inversion stores the full symmetric inverse of the factor times its transpose, whatever the target held before. Together with the decomposition it yields the inverse of every positive definite matrix.",
 ["inputs"],"all lower triangular factors with nonzero diagonal, all previous target contents, sizes up to the stated bound",
 "Tests invert one 3x3 matrix.",
 ["matrix/traits.rs"],[("invert_l_cholesky","matrix/traits.rs")],(),["inverse matrix contents"])
add("C16","Element access is row-major and exact in every accessor",
 "Every element accessor (get, set, get_at, set_at, index operators, vector and scalar accessors) of every matrix and buffer kind reads and writes exactly the element at the given row and column of the row-major storage: a write changes that element and no other, and a read after it returns the written value. A clone holds the same elements and is a matrix of its own.",
 ["inputs","configurations"],"all in-range row/column pairs (symbolic), all values, all storage kinds, the listed shapes",
 "Tests touch a few constant positions of a few square matrices, where row/column mix-ups cancel.",
 ["matrix/row_major.rs","matrix/traits.rs","matrix/data.rs","matrix/data/matrix_data_array.rs","matrix/data/matrix_data_mut.rs"],[("get_at, set_at","matrix/row_major.rs"),("get, set","matrix/traits.rs")],(),["as_slice()"])
add("C17","Row, column and whole-matrix copies are faithful",
 "Copying a row, a column or a whole matrix out of or into a matrix reproduces exactly those elements in order, for every shape and every row and column, and changes nothing else.",
 ["inputs","configurations"],"all shapes up to the stated size, all row/column positions, all values and previous target contents",
 "The row copy is not tested at all and the others only on one shape.",
 ["matrix/traits.rs"],[("get_row_copy, get_column_copy, copy, copy_to, copy_from","matrix/traits.rs")],(),["target contents"])
add("C18","Fill, identity, scalar, comatrix and symmetric setters do what they name",
 "Clearing, filling, identity, scalar-diagonal, comatrix and symmetric-element operations set exactly the elements they name to the named values, whatever the matrix held before, and change no others.",
 ["inputs","configurations"],"all previous contents and arguments, all sizes up to the stated bound, all positions",
 "Tests check single small instances.",
 ["matrix/traits.rs"],[("clear, set_all, set_zero, set_symmetric, make_identity, make_scalar, set_diagonal_to_scalar, make_comatrix","matrix/traits.rs")],(),["matrix contents"])
add("C19","Storage kinds are interchangeable and arithmetic stays in bounds",
 "A matrix behaves identically whether it is an array, boxed, borrowed or row-major wrapped; a write through a borrowed matrix is seen in the borrowed memory. Backing memory beyond the matrix' own elements is never changed by any matrix operation or filter step.",
 ["inputs","configurations"],"all values, every storage kind, exact and oversized backing memory",
 "Tests exercise each storage kind on its own with exact sizes.",
 ["matrix/data.rs","matrix/data/matrix_data_boxed.rs","matrix/data/matrix_data_mut.rs","matrix/data/matrix_data_row_major_mut.rs","matrix/traits.rs"],[("MatrixData constructors","matrix/data.rs"),("as_slice / as_mut_slice","matrix/row_major.rs")],(),["as_slice()","backing array"])
add("C20","Typed buffers report shape, wrap faithfully and convert back",
 "Every typed buffer built from an array or slice exposes exactly that data in row-major order, reports the length given by its dimensions, is valid exactly if the backing memory holds at least that many elements, and gives its data back unchanged when converted into its inner storage.",
 ["inputs","configurations"],"all buffer kinds, symbolic contents, exact and oversized backing memory",
 "Tests build each buffer kind once, from zeros.",
 ["buffers/macros.rs","buffers/types/state_transition_matrix_buffer.rs","matrix/data.rs","matrix/row_major.rs"],[("From conversions, len, is_valid","buffers/macros.rs"),("IntoInnerData","matrix/data.rs")],(),["len(), is_valid(), as_slice(), into_inner()"])
add("C21","Builders and macros create zeroed, correctly sized, independent parts",
 "Filters, controls and observations created by the builders, and buffers created by the buffer builder and the static macros, have the dimensions asked for, start out all zero and occupy exactly rows times columns elements. Objects built from the same builder share no state.",
 ["inputs","configurations"],"all builder entry points and macros at the listed dimensions with pairwise distinct counts, written with symbolic values after construction",
 "Tests construct objects with fixed dimensions and check few of the fields.",
 ["kalman_builder/regular.rs","kalman_builder/extended.rs","buffers/builder.rs","static_macros.rs","lib.rs"],[("builders","kalman_builder/regular.rs"),("BufferBuilder","buffers/builder.rs"),("impl_buffer_* macros","static_macros.rs"),("size_buffer_* macros","lib.rs")],(),["all accessors"])
add("C22","Reciprocal and square root of each supported number type are accurate",
 "For the single- and double-precision types with the standard or libm backend, reciprocal and square root are the correctly rounded results; for the 16.16 and 32.32 fixed-point types the square root is within one unit in the last place and the reciprocal is the exact quotient rounded to the grid, whenever representable.",
 ["inputs","configurations"],"all bit patterns of the operand, for f32, f64, I16F16 and I32F32, with the standard and the libm backend",
 "No test covers reciprocal or square root of the number types directly.",
 ["matrix/data_type.rs"],[("MatrixDataType impls","matrix/data_type.rs")],(),["recip(), square_root()"])
add("C23","Crate features and assertion settings never change results",
 "For inputs that satisfy the documented size requirements, every step and matrix operation gives the same results whatever combination of the std, alloc, libm, micromath, fixed, unsafe, nalgebra and no_assert features and whatever debug or release profile is used; no assertion fires on such inputs.",
 ["inputs","configurations"],"all values; the listed feature sets and both profiles",
 "Each test runs under one feature set at a time and never compares them.",
 ["matrix/traits.rs","matrix/data.rs","matrix/row_major.rs","lib.rs"],[("cfg(feature = no_assert / unsafe) blocks","matrix/traits.rs"),("cfg(feature = no_assert)","buffers/macros.rs")],(),["all results"])
add("C24","Fixed-point filtering stays close to exact and does not overflow spuriously",
 "With 16.16 fixed-point numbers, matrix products, sums, the Cholesky factorisation and inversion, predictions and corrections complete without overflow whenever every exact intermediate value of the textbook computation is comfortably representable, and each result differs from the exact one by at most the accumulated rounding of its elementary operations.",
 ["inputs"],"all 16.16 operands within the magnitude bounds of the scenario and all roundings of each operation by less than one unit, sizes up to the stated bound",
 "One example model is run in fixed point and compared with a loose tolerance.",
 ["matrix/traits.rs","matrix/data_type.rs"],[("cholesky_decompose_lower, mult*","matrix/traits.rs")],(),["matrix contents, absence of overflow panics"])
add("C25","The correction is the minimum-variance, least-squares estimate",
 "Among all linear updates of the same measurement, whatever their gain, the correction has the smallest covariance, and the corrected state solves the weighted least-squares problem that combines the prior estimate with the measurement. Fusing several measurements of a constant quantity, in any order, gives the information-weighted mean and its variance, which never exceeds the prior variance. The same holds for the extended filter with a linear observation.",
 ["inputs","histories","configurations"],"all estimates, covariances, observation matrices, measurements, positive definite innovation covariances and competing gains; all sequences of measurements up to the stated length",
 "Tests compare a few digits of one filter run and never compare the correction with any alternative estimate.",
 ["observations/regular.rs","observations/extended.rs","kalman/regular.rs","matrix/traits.rs"],[("correct","observations/regular.rs"),("correct_nonlinear","observations/extended.rs")],(),["state_vector(), estimate_covariance()"])
add("C26","The nalgebra view shows the same matrix and never reads outside it",
 "A matrix viewed through nalgebra has the same shape and the same element at every row and column as through this library, changes made through this library are seen in the view, and safe code can never make the view read outside the matrix' memory, even when the backing array is too small for the shape.",
 ["inputs","configurations"],"all values and symbolic in-range positions at the listed shapes, including oversized and undersized backing arrays",
 "Tests check one square matrix, where strides cannot be confused, and never an undersized array.",
 ["matrix/nalgebra_support.rs","matrix/data.rs"],[("RawStorage/RawStorageMut impls","matrix/nalgebra_support.rs"),("new_array","matrix/data.rs")],(),["nalgebra indexing"])
add("C27","Empty matrices and absent controls are handled without panics",
 "Operations on matrices with zero rows or columns (apart from the Cholesky decomposition, which requires at least one row), predictions of filters with zero states and applications of controls with zero inputs complete without panicking, give the textbook result for empty sums, and leave everything else unchanged.",
 ["inputs","configurations"],"all operations at shapes with a zero dimension, all values elsewhere",
 "Only the emptiness query of a zero-sized matrix is tested.",
 ["matrix/traits.rs","controls.rs"],[("copy_to, invert_l_cholesky, mult*","matrix/traits.rs"),("apply_control early return","controls.rs")],(),["absence of panics, contents"])
add("C28","No numeric contents make an operation panic or touch its inputs",
 "Whatever floating-point numbers the matrices hold - NaN, infinities, overflowing magnitudes, singular or indefinite covariances - every prediction, control, correction and matrix operation runs to completion without panicking, and a filter step leaves the model matrices, noise covariances, inputs and measurements exactly as they were.",
 ["inputs","configurations"],"all floating-point values including NaN and infinities in every matrix, every possible outcome of every comparison, at the listed shapes and feature sets",
 "The tests only run well-conditioned numbers; no test holds a NaN, an infinity or an indefinite innovation covariance.",
 ["matrix/traits.rs","observations/regular.rs","observations/extended.rs","controls.rs","kalman/regular.rs","kalman/extended.rs"],[("cholesky_decompose_lower, invert_l_cholesky","matrix/traits.rs"),("correct","observations/regular.rs"),("correct_nonlinear","observations/extended.rs")],(),["absence of panics","model and input accessors after a step"])
add("C29","Floating-point results lose no more accuracy than the textbook formula",
 "In floating-point arithmetic (absent overflow and underflow) matrix products and sums, predictions (plain, tuned, with control), triangular inversions, and corrections by independent measurements whose innovation variance is a sum of nonnegative terms deviate from the exact value of the textbook formula by at most a small multiple of the unit roundoff times the total magnitude of the formula's own terms; a Cholesky factor reproduces its matrix to the same degree. No intermediate value outside the formula may cancel digits away.",
 ["inputs"],"all input values and all relative roundings of each operation by at most u (single or better precision), at the listed dimensions",
 "Tests use small integers, for which almost every operation is exact, or compare with loose tolerances; an algebraically equal but numerically unstable rewrite passes all of them.",
 ["matrix/traits.rs","observations/regular.rs","observations/extended.rs","controls.rs","kalman/regular.rs","kalman/extended.rs"],[("mult*, cholesky_decompose_lower, invert_l_cholesky","matrix/traits.rs"),("correct","observations/regular.rs"),("predict_P, predict_P_tuned","kalman/regular.rs")],(),["matrix contents","state_vector(), estimate_covariance()"])
add("C30","Running the filter and computing with matrices makes no heap requests",
 "Predictions (plain, tuned, nonlinear), control applications, corrections (linear, nonlinear, with a definite or an indefinite innovation covariance), every matrix operation, copy, setter and element access, and building filters, controls, observations or matrices over memory the caller provides request no heap memory, whatever the storage kind, the dimensions, the feature set and the numbers held. Only the builders that promise heap storage allocate, and only while building.",
 ["inputs","configurations"],"all numeric contents including NaN and infinities, both outcomes of every comparison, at the listed shapes, storage kinds and feature sets",
 "No test counts heap requests; a scratch vector that appears only above some dimension, under one feature or on one branch changes no result.",
 ["matrix/traits.rs","observations/regular.rs","observations/extended.rs","controls.rs","kalman/regular.rs","kalman/extended.rs","buffers/builder.rs"],[("mult*, cholesky_decompose_lower, invert_l_cholesky","matrix/traits.rs"),("correct","observations/regular.rs"),("predict","kalman/regular.rs")],(),["heap requests during a step"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(props))
