#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the table below and the ids in properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the LLVM IR of the update kernels (relational value-partitioned domain, one tracked counter/weight, arbitrary others)'
AST = 'abstract interpretation of the type-checked syntax tree of the library (symbolic values, path-sensitive partitions, exceptions and containers modelled)'
TRN = 'abstract interpretation of the type-checked syntax tree of the training kernels (symbolic counters, weights and draws; partition by counter class, sample value, toss, feedback)'
CHECKS = {
    'C01': (TRN, 'proof', 'Every literal in every class of counter (symbolic value and number of states), both representations, all widths, plus the fresh model; feature counts around word boundaries. Thorough adds the analysis of the LLVM IR for every number of features. Undecided obligations are listed in the evidence and never reported as violations.'),
    'C02': (TRN + '; ' + AI, 'proof', 'The post-state of every counter is compared with the feedback table for every class of counter, sample value, tosses, feedback and output: from the syntax tree for both representations at feature counts around word boundaries, from the LLVM IR for the classic kernels at every feature count.'),
    'C03': (TRN, 'proof', 'After initialisation and after every kind of update each include bit is compared with the sign of its counter, for every class of counter and both decided and undecided draws; feature counts around word boundaries.'),
    'C04': (TRN, 'proof', 'Weights and limits symbolic; every class of weight under every feedback compared with the exact step. Thorough adds the LLVM IR analysis.'),
    'C08': (TRN, 'proof', 'Every cell of the model outside of the trained rows, the padding and the weights compared before/after; element accesses outside of a row, the sample or a vector are reported. Thorough adds the LLVM IR analysis for every size.'),
    'C30': (TRN, 'proof', 'The number of updates and the clauses hit, per loss and clause range, with draws classified by residue and by the side of the probability they fall on.'),
    'C05': (AST, 'proof', 'The evaluation kernels are interpreted with three-valued booleans and words of known bits: per tracked literal the partition violated / satisfied / empty, all other literals unknown, sizes around every tile and word boundary.'),
    'C06': (AST, 'proof', 'Vote kernels interpreted with symbolic outputs, weights and thresholds; every path compared with the clamped signed sum, candidate violations confirmed by a concrete assignment of the path condition.'),
    'C07': (AST, 'proof', 'Feedback allocation, opposite label draw and their use in the epoch loop interpreted with symbolic votes, draws and labels; decisions compared with the allocation formula.'),
    'C12': (AST, 'proof', 'fit and partial_fit of every public estimator are interpreted from the source over abstract inputs, one family of inputs per defect; the status of every path and the model snapshot before/after are compared. Sample sizes: symbolic where the validation loop folds, small concrete otherwise.'),
    'C13': (AST, 'proof', 'As C12 for predict, decision_function and evaluate; calls that reach a kernel before the refusal are violations.'),
    'C17': (AST, 'proof', 'Every factory is interpreted with each parameter running through a partition of all its values; success and the stored value are compared with the documented domain.'),
    'C18': (AST, 'proof', 'As C17: the stored parameter map of the argument route and of the JSON route are compared value class by value class, names and types included.'),
    'C19': (AST, 'proof', 'As C17 with malformed documents: every path must end in a returned error; an escaping exception or an abort is a violation.'),
    'C10': (AST, 'proof', 'Every public reader is interpreted from the source on trained models with all contents symbolic; the model parts before and after, the terms the result is made of and the result of a repeated call are compared. Kernels are uninterpreted functions of everything they receive; label counts and row counts are small constants.'),
    'C14': (AST, 'proof', 'As C10: the model after fit on an already trained estimator is compared term by term with that of a fresh one; partial_fit continues from the trained parts. Epoch, row and label counts are small constants, contents symbolic.'),
    'C15': (AST, 'proof', 'As C10: all parts of a clone are compared with the original, storage identity included; equality is decided for states that differ in exactly one part.'),
    'C16': (AST, 'proof', 'As C10: to_json followed by from_json over a JSON model that keeps names and types; every part, each counter width, weighted or not.'),
    'C20': (AST, 'proof', 'Candidate values are every literal of the library plus the documented ones; each accepted value is followed into its consumer (loss factory, counter matrix factory, tile dispatch), interpreted from the source.'),
    'C09': (AST + '; effect lint over the call graph', 'proof', 'Each parallel loop is interpreted iteration by iteration with the accesses of every iteration recorded: two iterations never touch the same object with one of them writing. Kernel and public results under one and several jobs are compared term by term; every reachable parallel region is checked for draws and shared scalars.'),
    'C11': ('effect lint over the resolved call graph of the type-checked library; ' + AST, 'proof', 'Every function reachable from the public entry points is searched for entropy sources, clocks, addresses used as values and mutable static state; training scenarios must seed and draw from the generators of the state at hand only.'),
    'C21': ('enumeration of reachable integer divisions; ' + AST, 'proof', 'Every integer division or remainder site reachable from a public entry point must be met in the interpreted scenario families and its divisor shown nonzero on every path.'),
    'C26': (AST, 'proof', 'The closures returned by the loss factory are interpreted with symbolic error and constant; their pieces are compared as polynomials (zero at zero, equality at every boundary, non-negative coefficients after substitution of the region).'),
    'C22': ('compile-fail witnesses and type relations decided by the compiler front end (no code is run)', 'proof', 'Each misuse is a witness program that must be rejected next to a corrected twin that must compile, for every factory, parameter, duplicate, foreign argument and raw type; relations between all ordered pairs of parameter types by type traits. Thorough adds g++ and all ordered pairs of arguments.'),
    'C31': (AST, 'proof', 'The tosser built by the library for a model is interpreted with symbolic draws on either side of the fraction, and whole rounds for every sequence of position residues (repetitions included); sizes and specificities from a grid including sizes beyond single precision.'),
    'C32': (AST, 'proof', 'Every instantiation of the factories with the variables of a caller is interpreted; an operation that may take the contents of such a variable (bound to an rvalue reference) or that changes it is reported. Standard library operations take contents only through rvalue references; std::exchange and the like are undecided.'),
    'C33': (AST, 'proof', 'Training on 2 to 4 samples over 1 to 3 epochs (thorough: up to 7 and 5) with symbolic contents, kernels as recording steps and a different permutation for every shuffle; the sequence of steps of each epoch is compared with one pass. The numbers of samples and epochs are bounded; the loop does not depend on them otherwise. Distribution of std::shuffle trusted.'),
    'C23': (AST, 'proof', 'Every member of the containers, all block types, interpreted at position width*q+r with symbolic q and every r; constructors at every residue of the column count.'),
    'C24': (AST, 'proof', 'Each internal step that returns a status or an either-value is made to fail, one at a time, along every public call; the failure must come back unchanged.'),
    'C25': (AST, 'proof', 'Scores are uninterpreted terms ranging over every weak order of up to 3 labels; predicted label, scores, accuracy and the arguments each variant hands to the kernels are compared.'),
}
NA = {
    'C27': 'convergence and accuracy are statistical run-time quantities of the training data; no static argument bounds them',
    'C28': 'the frequency of random outcomes is a property of the generator\'s output distribution; static analysis cannot bound it',
    'C29': 'bit-identity of reloaded behaviour rests on the round trip of the third-party JSON library over run-time values; the static part (every field is written and read back) is C16',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
    for i in ids:
        if i in CHECKS:
            t, l, n = CHECKS[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 checks/run.py %s quick' % i, 'thorough_cmd': 'python3 checks/run.py %s thorough' % i,
                                'technique': t, 'level': l, 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA[i]})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
