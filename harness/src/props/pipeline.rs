//! Running the code under test the way its users do.
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_program::elements::LinearProgramType;
use relp::data::linear_program::general_form::GeneralForm;
use relp::data::linear_program::solution::Solution;

use crate::engine::{guard, Fail};
use crate::q::RB;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Backend { Lu, Rows }

pub enum Outcome { Infeasible, Unbounded, Optimal(Solution<RB>) }
impl Outcome {
    pub fn name(&self) -> &'static str {
        match self { Outcome::Infeasible => "infeasible", Outcome::Unbounded => "unbounded", Outcome::Optimal(_) => "optimal" }
    }
}

/// Presolve (some number of times), standardise, solve and map back.
///
/// Standardising a maximisation problem makes it a minimisation problem, and the value reported
/// after that is that of the minimisation problem; `max` undoes that.
pub fn run(mut general: GeneralForm<RB>, max: bool, presolves: usize, backend: Backend) -> Result<Outcome, Fail> {
    for _ in 0..presolves {
        match guard("presolve", || general.presolve())? {
            Ok(()) => {}
            Err(LinearProgramType::Infeasible) => return Ok(Outcome::Infeasible),
            Err(LinearProgramType::Unbounded) => return Ok(Outcome::Unbounded),
            Err(LinearProgramType::FiniteOptimum(s)) => return Ok(Outcome::Optimal(s)),
        }
    }
    guard("standardize and solve", || {
        let counts = general.standardize();
        let data = general.derive_matrix_data(counts);
        let result = match backend {
            Backend::Lu => data.solve_relaxation::<Carry<RB, LUDecomposition<_>>>(),
            Backend::Rows => data.solve_relaxation::<Carry<RB, BasisInverseRows<_>>>(),
        };
        match result {
            OptimizationResult::Infeasible => Outcome::Infeasible,
            OptimizationResult::Unbounded => Outcome::Unbounded,
            OptimizationResult::FiniteOptimum(v) => {
                let reduced = data.reconstruct_solution(v);
                let mut s = general.clone().compute_full_solution_with_reduced_solution(reduced);
                if max { s.objective_value = -s.objective_value; }
                Outcome::Optimal(s)
            }
        }
    })
}
