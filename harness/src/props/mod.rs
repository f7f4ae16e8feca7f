use crate::engine::CaseFn;
pub mod compare;
pub mod equivalent;
pub mod errors;
pub mod filter;
pub mod hook;
pub mod inverse;
pub mod linalg;
pub mod networks;
pub mod mps;
pub mod mpsdoc;
pub mod permute;
pub mod phase_one;
pub mod pipeline;
pub mod repeat;
pub mod scaling;
pub mod show;
pub mod simplex;
pub mod solve;
pub mod standard;
pub mod systems;
pub mod view;

pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Run everything a second time in other processes and compare the digests.
    pub twice: bool,
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", case: solve::c01, quick: 200_000, thorough: 1_000_000, twice: false,
            rule: "Random LPs of several structure classes solved by every configuration and compared with an independent certified exact solver. Non-trivial: at least two variables, two rows and three coefficients." },
        Prop { id: "C02", case: solve::c02, quick: 200_000, thorough: 1_000_000, twice: false,
            rule: "Random LPs solved by every configuration (also after one or two presolves); the reported solution is substituted in the original problem and compared with the certified optimum. Non-trivial: the problem has an optimum, at least two variables, two rows and three coefficients." },
        Prop { id: "C03", case: solve::c03, quick: 800_000, thorough: 10_000_000, twice: false,
            rule: "Random LPs biased to what presolve acts on, presolved one to three times; verdicts compared with the certified reference, the remaining problem solved by the reference and its optima, other optimal vertices and feasible vertices extended and substituted in the original. Non-trivial: at least two variables, two rows and three coefficients." },
        Prop { id: "C04", case: standard::c04, quick: 400_000, thorough: 5_000_000, twice: false,
            rule: "Random LPs with all kinds of bounds; the standard form is read through its matrix view, the affine map back is measured, every original constraint is optimised over the standard form and random feasible points of the original are looked for in it. Non-trivial: at least two variables and one row, and a variable that is not merely nonnegative." },
        Prop { id: "C05", case: standard::c05, quick: 2_000_000, thorough: 30_000_000, twice: false,
            rule: "Random standard forms given to the matrix view and compared elementwise with the documented layout. Non-trivial: at least two variables, two kinds of rows and an upper bound." },
        Prop { id: "C06", case: scaling::c06, quick: 250_000, thorough: 4_000_000, twice: false,
            rule: "Random LPs with many common prime factors, scaled before or after standardising; factors measured and compared elementwise, the scaled problem solved and mapped back, and the scaling undone. Non-trivial: at least two variables and two rows, and the scaling changed the problem." },
        Prop { id: "C07", case: phase_one::c07, quick: 150_000, thorough: 3_000_000, twice: false,
            rule: "Random systems with nonnegative right-hand side (redundant rows, degenerate, infeasible, none to all unit columns offered), given to phase one as matrix data and as providers of our own; verdict, rank, removed rows, basis, basic solution and the handed over inverse compared with exact recomputation. Non-trivial: at least two rows and two columns." },
        Prop { id: "C08", case: simplex::c08, quick: 50_000, thorough: 1_500_000, twice: false,
            rule: "Random feasible systems with independent rows and a random feasible basis; phase two with all four rules and both representations, step by step and in one go, compared with the certified reference. Non-trivial: at least two rows and two columns and at least one basis change." },
        Prop { id: "C09", case: simplex::c09, quick: 80_000, thorough: 1_500_000, twice: false,
            rule: "Mostly degenerate systems (relatives of known cycling examples, assignment problems) from random feasible bases and from the start of phase one, run with the first profitable rule while remembering every basis; the ratio test recomputed for every nonbasic column at every basis. Non-trivial: at least two rows and two columns and two basis changes." },
        Prop { id: "C10", case: simplex::c10, quick: 150_000, thorough: 2_000_000, twice: false,
            rule: "Runs of each rule in phase one and phase two, some with random other basis changes in between, with every proposal compared with a recomputation of the rule's definition from scratch. Non-trivial: at least two basis changes." },
        Prop { id: "C12", case: simplex::c12, quick: 150_000, thorough: 2_000_000, twice: false,
            rule: "Random basis changes that keep the point feasible (also degenerate ones on negative elements), from random bases and artificial starts, with the whole state compared with recomputation after each of them and the information returned by each. Non-trivial: at least two rows, two columns and two basis changes." },
        Prop { id: "C11", case: inverse::c11, quick: 100_000, thorough: 3_000_000, twice: false,
            rule: "Random invertible matrices and sequences of up to 80 column replacements, with and without refactoring, applied to the LU and the explicit rows representation; products from both sides, elements, rows and returned columns compared with the exact dense inverse. Non-trivial: at least two rows and two replacements." },
        Prop { id: "C13", case: filter::c13, quick: 300_000, thorough: 5_000_000, twice: false,
            rule: "Random views (matrix data and providers of our own, with and without bound rows) and random sets of rows to skip, some deleted one by one, compared with deleting the rows from the dense system; and rank deficient systems continued from phase one on the filtered view, compared with a fresh start and recomputation. Non-trivial: something is skipped and two rows are left, or a deficient system with two rows." },
        Prop { id: "C14", case: mps::c14, quick: 1_500_000, thorough: 10_000_000, twice: false,
            rule: "Random MPS documents (all row kinds, right-hand sides, ranges, bound types, markers, groups, number notations) written in a random layout, read by a fitting reader or put together without a file, converted and compared with an independent interpretation of the document. Non-trivial: without contradiction, at least two rows and columns, and ranges or bounds." },
        Prop { id: "C15", case: mps::c15, quick: 800_000, thorough: 5_000_000, twice: false,
            rule: "Random MPS documents written in two to four random layouts (fixed and free, one or two entries per line, comments, blank lines, spaces, line ends) and with entries in another order; results compared. Non-trivial: at least two rows and columns." },
        Prop { id: "C16", case: mps::c16, quick: 2_000_000, thorough: 50_000_000, twice: false,
            rule: "Random decimal literals, literals near the limits of 64 bits, with many zeros, and texts that are nearly literals, read directly and as part of a file; compared with exact integer arithmetic on the text. Non-trivial: at least two digits." },
        Prop { id: "C17", case: mps::c17, quick: 2_500_000, thorough: 10_000_000, twice: false,
            rule: "Well-formed files with one of thirty contradictions put in, mutated files, token soup and arbitrary text, given to all readers; every error displayed and its sources walked; accepted files compared with an independent strict reader. Non-trivial: a contradiction, a made up section, or at least five lines." },
        Prop { id: "C18", case: linalg::c18, quick: 800_000, thorough: 10_000_000, twice: false,
            rule: "Random histories of operations applied to a sparse and a dense vector (three number types), with every way to read them compared with a plain list of exact numbers after each operation. Non-trivial: at least three operations." },
        Prop { id: "C19", case: linalg::c19, quick: 2_000_000, thorough: 10_000_000, twice: false,
            rule: "Random histories of operations applied to a row major and a column major matrix (two number types), compared with a dense table after each operation, including conversion in both directions. Non-trivial: at least two operations, and not (nearly) empty at the end." },
        Prop { id: "C20", case: networks::c20, quick: 400_000, thorough: 4_000_000, twice: false,
            rule: "Random graphs (shortest path, maximum flow, flow with costs, the incidence matrix itself) and random inequality systems with a full first basis, as providers of our own over several number types, compared with Bellman-Ford, augmenting paths and the certified reference. Non-trivial: at least three arcs and vertices, or two rows and variables." },
        Prop { id: "C21", case: repeat::c21, quick: 40_000, thorough: 1_000_000, twice: true,
            rule: "Random LPs and MPS files; presolving (twice), standardising, scaling, parsing and solving in all configurations repeated from equal inputs, also with other problems in between, and everything once more in other processes in the opposite order; all results compared in full. Non-trivial: at least two variables, two rows and three coefficients." },
        Prop { id: "C22", case: equivalent::c22, quick: 60_000, thorough: 2_000_000, twice: false,
            rule: "Random LPs of up to about 28 rows and variables, and netlib problems shipped with the project, next to an equivalent formulation made by one to twelve random steps (sixteen kinds) and solved by another configuration; verdicts and values compared, solutions substituted, the netlib problems also compared with published optima. Non-trivial: at least two variables, two rows and three coefficients, and a step was made." },
        Prop { id: "C23", case: mps::c23, quick: 500_000, thorough: 1_000_000, twice: false,
            rule: "Files with random names, extensions and contents (also not UTF-8), missing files and directories, imported from a scratch directory; compared with parsing the text and with the expected class of error. Non-trivial: a readable file with a known extension." },
        Prop { id: "C25", case: errors::c25, quick: 1_000_000, thorough: 10_000_000, twice: false,
            rule: "Well-formed files with one of thirteen kinds of wrong lines at a known place, and randomly changed files, laid out at random with comments and blank lines; every line number and quoted line in the error compared with the text, with the spoiled line, and with the error for another rest of the file. Non-trivial: an error of a kind that names its line, which is not the first one." },
        Prop { id: "C26", case: show::c26, quick: 400_000, thorough: 5_000_000, twice: false,
            rule: "Tableaux of both phases at random bases, both representations of the inverse through replacements, matrix views, filtered views, vectors, solutions and relations printed; the numbers read back by their place and compared with exact recomputation. Non-trivial: at least two rows and two columns, or two values." },
        Prop { id: "C27", case: permute::c27, quick: 2_000_000, thorough: 20_000_000, twice: false,
            rule: "Random permutations of each kind, explicit ones also through a history of swaps, rotations and inversions, asked for single indices and applied to sorted and unsorted sparse lists; compared with a plain table. Non-trivial: at least three indices." },
        Prop { id: "C24", case: compare::c24, quick: 1_000_000, thorough: 20_000_000, twice: false,
            rule: "Pairs of solutions with the same or slightly different names, values, objectives and orders, and minima between all possible fractions; compared both ways and with themselves, against a direct count. Non-trivial: at least two values." },
    ]
}
