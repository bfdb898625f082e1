//! The list of typed buffers with pairwise distinct dimensions.
//! N (states) = 3, C (controls) = 2, M (observations) = 4
pub use crate::kf::arr;
pub use minikalman::buffers::types::*;
pub use minikalman::prelude::*;

/// mac!(Name [const args], rows, cols; ...)
#[macro_export]
macro_rules! each_mut_buffer {
    ($mac:ident) => {
        $mac!(StateTransitionMatrixMutBuffer [3] 3 3);
        $mac!(ControlMatrixMutBuffer [3, 2] 3 2);
        $mac!(ControlProcessNoiseCovarianceMatrixMutBuffer [2] 2 2);
        $mac!(DirectProcessNoiseCovarianceMatrixMutBuffer [3] 3 3);
        $mac!(ObservationMatrixMutBuffer [4, 3] 4 3);
        $mac!(EstimateCovarianceMatrixBuffer [3] 3 3);
        $mac!(InnovationCovarianceMatrixBuffer [4] 4 4);
        $mac!(KalmanGainMatrixBuffer [3, 4] 3 4);
        $mac!(MeasurementNoiseCovarianceMatrixBuffer [4] 4 4);
        $mac!(TemporaryBQMatrixBuffer [3, 2] 3 2);
        $mac!(TemporaryHPMatrixBuffer [4, 3] 4 3);
        $mac!(TemporaryKHPMatrixBuffer [3] 3 3);
        $mac!(TemporaryPHTMatrixBuffer [3, 4] 3 4);
        $mac!(TemporaryResidualCovarianceInvertedMatrixBuffer [4] 4 4);
        $mac!(TemporaryStateMatrixBuffer [3] 3 3);
    };
}
#[macro_export]
macro_rules! each_const_buffer {
    ($mac:ident) => {
        $mac!(StateTransitionMatrixBuffer [3] 3 3);
        $mac!(ControlMatrixBuffer [3, 2] 3 2);
        $mac!(ControlProcessNoiseCovarianceMatrixBuffer [2] 2 2);
        $mac!(DirectProcessNoiseCovarianceMatrixBuffer [3] 3 3);
        $mac!(ObservationMatrixBuffer [4, 3] 4 3);
    };
}
#[macro_export]
macro_rules! each_vec_buffer {
    ($mac:ident) => {
        $mac!(StateVectorBuffer 3);
        $mac!(ControlVectorBuffer 2);
        $mac!(MeasurementVectorBuffer 4);
        $mac!(InnovationVectorBuffer 4);
        $mac!(PredictedStateEstimateVectorBuffer 3);
    };
}
