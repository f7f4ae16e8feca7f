//! Phase one step by step and permutations, which take hooks in the code under test. Without the
//! hooks (see `check.sh`) the parts that need them are left out.
#[cfg(relp_verif)]
pub use relp::algorithm::two_phase::phase_one::verif::{fully, partially, run};
#[cfg(relp_verif)]
pub use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::verif::*;

pub const AVAILABLE: bool = cfg!(relp_verif);

#[cfg(not(relp_verif))]
mod stub {
    use relp::algorithm::two_phase::phase_one::RankedFeasibilityResult;
    use relp::algorithm::two_phase::tableau::Tableau;
    use relp::algorithm::two_phase::tableau::kind::artificial::fully::Fully;
    use relp::algorithm::two_phase::tableau::kind::artificial::partially::Partially;
    use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
    use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;

    pub fn fully<IM, MP: MatrixProvider<Column: Identity>>(_: &MP) -> Tableau<IM, Fully<'_, MP>> { unreachable!() }
    pub fn partially<IM, MP: MatrixProvider<Column: Identity>>(_: &MP) -> Tableau<IM, Partially<'_, MP>> { unreachable!() }
    pub fn run<IM, K, MP, PR>(_: Tableau<IM, K>) -> RankedFeasibilityResult<IM> { unreachable!() }
}
#[cfg(not(relp_verif))]
pub use stub::*;
