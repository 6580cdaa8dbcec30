#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json (run by hand after editing)."""
import json, os, subprocess, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, observe, hook=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': tests, 'anchors': a})
G = 'src/zksql_poly_iop/'
HOOK_G = 'gadgets are private modules: re-exported under cfg(vp_hooks)'
TEST_G = 'The tests run one or two random or hand-written instances of fixed size through the gadget, almost all of them true statements produced by the honest helper; nothing covers all contents, selectors, sizes and wrong advice.'

prop('T01', 'Polynomial algebra in a proving session is exact',
 'In a proving session, a polynomial built from tables by adding, subtracting, multiplying, scaling, adding a constant, or appending unused variables at the front or at the back has on every row exactly the value those operations give on the tables, whatever mix of stored and derived operands is used, and evaluates at any point to the same combination of its operands\' evaluations. Reading a table, evaluating a polynomial or deriving new ones never changes the rows of any other polynomial.',
 ['programs', 'inputs'], 'every program of operations up to the depth bound over every pair of small tables',
 'Tests run a handful of fixed operation chains on random tables; aliasing and caching faults need particular chains (an operand derived, then materialised, then reused).',
 ['src/tracker/prover_tracker.rs', 'src/tracker/prover_wrapper.rs', 'src/tracker/dmle_utils.rs'],
 [('sum-of-products representation and in-place materialisation', 'src/tracker/prover_tracker.rs'), ('variable extension', 'src/tracker/dmle_utils.rs')],
 ['TrackedPoly::evaluations', 'TrackedPoly::evaluate', 'TrackedPoly::to_arithmatic_virtual_poly'], 'cfg(vp_hooks) re-export of the session types',
 [('materialized_polys / virtual_polys', 'tables and their sums of products', 'src/tracker/prover_tracker.rs')])
prop('T02', 'Prover and verifier sessions stay in lockstep',
 'When prover and verifier perform the same operations in the same order, both assign the same identifier to every polynomial, draw the same challenges, and each derived commitment evaluates on the verifier\'s side, at any point with the right number of coordinates, to the value of the corresponding polynomial on the prover\'s side, given the values of the committed polynomials. Two handles of a session compare equal exactly when they denote the same polynomial of the same session.',
 ['programs'], 'every operation program up to the depth bound, on both sides',
 'Tests check lockstep on one chain of operations; a missed identifier or a wrong truncation of the point shows only for particular operations, operand sizes and orders.',
 ['src/tracker/verifier_tracker.rs', 'src/tracker/verifier_wrapper.rs', 'src/tracker/prover_tracker.rs'],
 [('evaluation closures mirroring each operation', 'src/tracker/verifier_tracker.rs'), ('identifier burning', 'src/tracker/verifier_tracker.rs')],
 ['TrackedComm::eval_virtual_comm', 'get_next_id', 'get_and_append_challenge'], 'cfg(vp_hooks) re-export of the session types')
prop('T03', 'A compiled proof verifies exactly when all recorded claims are true',
 'For every set of zero claims and sum claims recorded identically by prover and verifier over polynomials of equal or different sizes, an honestly compiled proof is accepted if all claims are true and is refused (at compilation or at verification) if any claim is false. Compiling is deterministic: the same session compiles to the same proof.',
 ['histories', 'inputs'], 'every choice of up to three claims over polynomials of one to three variables, true and false',
 'Tests compile a few true claim sets and one false one; mixed sizes, several claims of each kind and single false claims among true ones are not covered.',
 ['src/tracker/prover_tracker.rs', 'src/tracker/verifier_tracker.rs'],
 [('claim aggregation with transcript challenges', 'src/tracker/prover_tracker.rs'), ('size equalisation', 'src/tracker/prover_tracker.rs'), ('verification of sumcheck and opening', 'src/tracker/verifier_tracker.rs')],
 ['ProverTrackerRef::compile_proof', 'VerifierTrackerRef::verify_claims'], 'cfg(vp_hooks) re-export of the session types')
prop('T04', 'A proof altered in any one part is refused',
 'Changing any single part of a valid compiled proof - a commitment, a claimed sum, a number in any round message, any element of the batched opening proof - or using it for different claimed sums, for a different number or kind of claims, or against different public parameters makes verification fail; it never succeeds and never accepts by ignoring a failed sub-check.',
 ['fault_sequences', 'inputs'], 'every single-element substitution at every position of the proof, for every session in the family, with the real commitment scheme',
 'Tests never alter a proof.',
 ['src/tracker/verifier_tracker.rs', 'src/tracker/prover_tracker.rs', 'src/subroutines/pcs/multilinear_kzg/batching.rs', 'src/subroutines/poly_iop/sum_check/verifier.rs'],
 [('sumcheck round checks', 'src/subroutines/poly_iop/sum_check/verifier.rs'), ('batched opening check', 'src/subroutines/pcs/multilinear_kzg/batching.rs'), ('verdict of the opening check is used', 'src/tracker/verifier_tracker.rs')],
 ['VerifierTrackerRef::verify_claims'], 'cfg(vp_hooks) access to the parts of a proof')
prop('T05', 'Copies of a session are independent',
 'After a session (prover or verifier) is deep-copied, no operation on the copy - deriving or committing polynomials, recording claims, drawing challenges, loading or verifying a proof - changes anything observable in the original, and vice versa; both continue as if they had been built separately.',
 ['histories'], 'every history of operations split over original and copy up to the depth bound',
 'Tests use copies only to read claims off them.',
 ['src/tracker/prover_wrapper.rs', 'src/tracker/verifier_wrapper.rs', 'src/tracker/verifier_tracker.rs'],
 [('deep copy', 'src/tracker/prover_wrapper.rs'), ('shared closure and query maps', 'src/tracker/verifier_tracker.rs')],
 ['deep_copy'], 'cfg(vp_hooks) re-export of the session types')
prop('T06', 'Every challenge depends on everything said before it',
 'In a proving or verifying session, every challenge drawn depends on every commitment, explicitly appended message, claimed sum, round message, claimed evaluation and challenge that came before it: two histories that differ in any earlier prover message never draw the same later challenge, and equal histories always do. In particular a prover cannot choose claimed sums or claimed evaluations after seeing the challenges that combine them.',
 ['histories', 'fault_sequences'], 'every pair of histories in the enumerated family; every claimed sum and evaluation as adaptive choice',
 'Tests only compare honest prover and verifier, which agree even when a message is bound on neither side.',
 ['src/transcript/mod.rs', 'src/tracker/prover_tracker.rs', 'src/tracker/verifier_tracker.rs', 'src/subroutines/poly_iop/sum_check/mod.rs', 'src/subroutines/pcs/multilinear_kzg/batching.rs'],
 [('transcript absorption at each message', 'src/transcript/mod.rs')],
 ['get_and_append_challenge', 'verify_claims', 'batch_verify'], 'cfg(vp_hooks) access to proof parts')
prop('T07', 'The final sumcheck value is checked against the committed polynomials',
 'The verifier accepts a proof only if the value the sumcheck ends with equals the value of the combined claimed polynomials at the challenge point, computed from opened evaluations of the commitments; a prover who sends self-consistent round messages for some other polynomial is refused.',
 ['fault_sequences', 'inputs'], 'every false claim in the family combined with every forging strategy in the menu (honest transcript, substituted round polynomials, honest openings)',
 'Tests never run a dishonest prover against the final check.',
 ['src/tracker/verifier_tracker.rs', 'src/tracker/prover_tracker.rs'],
 [('(missing) comparison with the sumcheck subclaim', 'src/tracker/verifier_tracker.rs')],
 ['VerifierTrackerRef::verify_claims'], 'cfg(vp_hooks) access to proof parts')
prop('S01', 'Sumcheck: honest proofs of true sums verify, with a correct subclaim',
 'For every sum of products of multilinear tables, with any coefficients, repeated factors and products of different lengths, the sumcheck prover\'s proof carries the true sum, verifies against it, and leaves a point and expected value equal to the polynomial evaluated at that point; prover and verifier transcripts stay equal. A polynomial without variables is refused with an error.',
 ['inputs'], 'all product shapes, coefficient choices and tables over the alphabet within the bounds',
 'Tests try random polynomials of one or two sizes; degenerate shapes (constant factors, shared tables, unequal product lengths, one variable, high degree) are not all covered.',
 ['src/subroutines/poly_iop/sum_check/prover.rs', 'src/subroutines/poly_iop/sum_check/verifier.rs', 'src/subroutines/poly_iop/sum_check/mod.rs'],
 [('round polynomial computation and extrapolation', 'src/subroutines/poly_iop/sum_check/prover.rs'), ('interpolation and deferred checks', 'src/subroutines/poly_iop/sum_check/verifier.rs')],
 ['SumCheck::prove', 'SumCheck::verify', 'SumCheck::extract_sum'])
prop('S02', 'Sumcheck: wrong sums and altered messages never yield a true subclaim',
 'If the claimed sum is wrong, or any round message of a proof is altered, dropped, reordered or has the wrong length, the verifier either refuses or ends with a point and expected value that do not match the polynomial; it never ends with a matching one.',
 ['fault_sequences', 'inputs'], 'every single alteration at every round and slot, and every consistent forging that repairs the visible check of its own round',
 'Tests check one wrong sum; no round message is ever altered.',
 ['src/subroutines/poly_iop/sum_check/verifier.rs', 'src/subroutines/poly_iop/sum_check/mod.rs'],
 [('deferred consistency checks', 'src/subroutines/poly_iop/sum_check/verifier.rs')],
 ['SumCheck::verify'], 'cfg(vp_hooks) access to round messages')
prop('S03', 'Zero check accepts exactly the polynomials that vanish on every row',
 'For every sum of products of multilinear tables, a zero-check proof verifies and leaves a subclaim matching the polynomial if and only if the polynomial is zero on every row; positive and negative rows never cancel, and altered proofs never leave a matching subclaim.',
 ['inputs', 'fault_sequences'], 'all tables over a signed alphabet within the bounds, and every single alteration of the proof',
 'Tests use one all-zero family and one random non-zero one.',
 ['src/subroutines/poly_iop/zero_check/mod.rs', 'src/arithmetic/virtual_polynomial.rs'],
 [('random row weights', 'src/subroutines/poly_iop/zero_check/mod.rs')],
 ['ZeroCheck::prove', 'ZeroCheck::verify'], 'cfg(vp_hooks) access to round messages')
prop('S04', 'Transcripts are deterministic, order-sensitive and refuse to start empty',
 'Two transcripts that received the same labelled messages and drew the same challenges produce the same next challenge; two that differ in the initial label, in any message, label, order or grouping, or in any earlier draw produce different ones, and successive challenges differ from each other. Drawing from a transcript that has received nothing is an error and leaves it unchanged.',
 ['histories'], 'every history up to the depth bound over an alphabet of messages, labels and draws',
 'No test looks at challenges.',
 ['src/transcript/mod.rs'], [('absorb and squeeze', 'src/transcript/mod.rs')],
 ['IOPTranscript'])
prop('K01', 'Polynomial commitments open correctly for every size and point',
 'For every supported number of variables, every trimming of the public parameters and every table and point, committing, opening and verifying succeeds and returns the table\'s multilinear evaluation; commitments are deterministic, additive, differ for different tables, and the commitment of a table equals that of the same table with unused variables added at the front. Sizes or point lengths beyond what the parameters support are refused with an error.',
 ['inputs', 'configurations'], 'all sizes up to the bound, all trimmings, all tables and points over the alphabet',
 'Tests commit one random table of two sizes and generate parameters without using most of them.',
 ['src/subroutines/pcs/multilinear_kzg/mod.rs', 'src/subroutines/pcs/multilinear_kzg/srs.rs', 'src/subroutines/pcs/multilinear_kzg/util.rs'],
 [('structured reference string layout', 'src/subroutines/pcs/multilinear_kzg/srs.rs'), ('quotient commitments', 'src/subroutines/pcs/multilinear_kzg/mod.rs')],
 ['PolynomialCommitmentScheme::{commit,open,verify,trim}'])
prop('K02', 'An opening verifies only for its own commitment, point, value and proof',
 'Verification of an opening fails when the commitment, any coordinate of the point, the value, any element of the proof or the public parameters is replaced by a different one; only the unchanged combination is accepted.',
 ['fault_sequences', 'inputs'], 'every single substitution at every position for all sizes up to the bound',
 'One test replaces the value by a random one; commitment, point and proof elements are never replaced.',
 ['src/subroutines/pcs/multilinear_kzg/mod.rs'], [('pairing equation', 'src/subroutines/pcs/multilinear_kzg/mod.rs')],
 ['PolynomialCommitmentScheme::verify'])
prop('K03', 'Batched openings are complete for any number of polynomials and sound',
 'For any positive number of polynomials of one size and any points, equal or different, the batched opening proof made from the true values verifies, with prover and verifier transcripts ending equal. It fails if any value, point, commitment or proof element is replaced, if commitments are reordered, or if the values are wrong, even when chosen after seeing the combining challenge.',
 ['inputs', 'fault_sequences', 'configurations'], 'one to five polynomials of one to three variables, all patterns of shared points, every single substitution',
 'One test batches five random polynomials at distinct points; one polynomial, shared points and all substitutions are uncovered.',
 ['src/subroutines/pcs/multilinear_kzg/batching.rs'],
 [('random linear combination, sumcheck and single opening', 'src/subroutines/pcs/multilinear_kzg/batching.rs')],
 ['PolynomialCommitmentScheme::{multi_open,batch_verify}'], 'cfg(vp_hooks) access to batch proof parts')
prop('A01', 'Multilinear table utilities compute what they denote',
 'Evaluating, fixing leading or trailing variables (sequential and parallel versions alike), merging tables, building and evaluating the equality polynomial, identity tables, bit and index helpers, and adding unused variables at the front or back all agree with the definition of the multilinear extension for every table, point and size; mismatched sizes are refused.',
 ['inputs', 'configurations'], 'all sizes up to the bound, all unit tables (by linearity) plus mixed tables, all points over the alphabet',
 'Tests compare two implementations on random inputs of one size, or nothing at all.',
 ['src/arithmetic/multilinear_polynomial.rs', 'src/arithmetic/util.rs', 'src/arithmetic/virtual_polynomial.rs', 'src/tracker/dmle_utils.rs'],
 [('table folding', 'src/arithmetic/multilinear_polynomial.rs')], ['public functions of the arithmetic module'])
prop('A02', 'Virtual polynomial algebra is exact',
 'A virtual polynomial built by any sequence of adding products, multiplying by tables, adding virtual polynomials and weighting with an equality polynomial has at every point and on every row the value of the corresponding arithmetic expression, its declared degree bounds the length of every product, its variable count is right, and invalid additions are refused; operands of an addition are left unchanged.',
 ['programs', 'inputs'], 'every construction sequence up to the depth bound, including shared tables and different variable counts',
 'Tests add two random polynomials and weight one with the equality polynomial.',
 ['src/arithmetic/virtual_polynomial.rs'], [('shared-table index', 'src/arithmetic/virtual_polynomial.rs')], ['VirtualPolynomial'])

def gad(id, title, st, qtext, files, mech, extra_tests=''):
    prop(id, title, st, ['inputs', 'fault_sequences'], qtext, TEST_G + extra_tests, files, mech, ['prove / verify of the gadget, then the claims recorded by the verifier and verify_claims'], HOOK_G)
gad('G01', 'Weighted bag argument accepts exactly equal weighted multisets',
 'For any lists of left and right bags (values with selectors) and weight columns, of equal or different sizes, the weighted bag argument is accepted if and only if for every value the total of weight times selector over the left rows equals that over the right rows; no prover-supplied helper column makes a false statement accepted.',
 'all contents over the alphabets for the bag shapes within the bounds; every listed deviation of every helper column of the prover',
 [G + 'bag_multitool/bag_multitool.rs'], [('sum of weighted inverses on each side', G + 'bag_multitool/bag_multitool.rs')])
gad('G02', 'Bag equality and bag sum accept exactly equal multisets',
 'Bag equality is accepted if and only if the two bags, restricted to selected rows, contain every value equally often; bag sum is accepted if and only if the third bag contains every value as often as the first two together, for bags of equal or different sizes. Unequal sizes are refused by bag equality.',
 'all contents and selectors over the alphabets for shapes up to four rows each', [G + 'bag_eq/bag_eq.rs', G + 'bag_sum/bag_sum.rs'],
 [('weighted bag argument with unit weights', G + 'bag_sum/bag_sum.rs')])
gad('G03', 'Bag inclusion accepts exactly included bags',
 'Bag inclusion is accepted if and only if every selected value of the included bag occurs among the selected values of the including bag, whatever multiplicities; with explicit multiplicity advice it is accepted if and only if the advised multiplicities count the included values correctly.',
 'all contents, selectors and multiplicity columns over the alphabets within the bounds', [G + 'bag_inclusion/bag_inclusion.rs', G + 'bag_inclusion/utils.rs'],
 [('multiplicity column', G + 'bag_inclusion/utils.rs')])
gad('G04', 'Prescribed permutation is accepted exactly when it maps one table to the other',
 'The prescribed-permutation argument is accepted if and only if the second table is the first one rearranged as the permutation column prescribes; a wrong arrangement, a column that is not a permutation, or tables that hold other values are not accepted, and mismatched sizes are refused.',
 'all tables over the alphabet and all index columns, permutations or not, up to four rows', [G + 'bag_presc_perm/bag_presc_perm.rs'],
 [('pairing with row indices and random folding', G + 'bag_presc_perm/bag_presc_perm.rs')])
gad('G05', 'Strict sort accepts exactly strictly increasing selected columns',
 'The strict-sort argument is accepted if and only if consecutive rows differ by an amount contained in the range table and every selected row (other than the last) is followed by a strictly larger one; equal neighbours are possible only after unselected rows.',
 'all columns and selectors over the alphabets up to four rows (eight with a smaller alphabet) and several range tables', [G + 'bag_sort/bag_sort.rs'],
 [('shift permutation, differences in range, no zero differences', G + 'bag_sort/bag_sort.rs')])
gad('G06', 'No-zeros and selector-validity arguments decide exactly their predicates',
 'The no-zeros argument is accepted if and only if no selected row is zero, and the selector-validity argument if and only if every row is zero or one; in neither can zero rows, other values or prover-supplied inverses be arranged to hide a bad row.',
 'all columns and selectors over the alphabet up to eight rows', [G + 'bag_no_zeros/mod.rs', G + 'selector_valid/selector_valid.rs'],
 [('inverse column', G + 'bag_no_zeros/mod.rs'), ('product with complement', G + 'selector_valid/selector_valid.rs')])
gad('G07', 'Support argument accepts exactly the sorted distinct values of a bag',
 'The support argument is accepted if and only if the support column lists, strictly increasing, exactly the distinct selected values of the bag, each with a non-zero multiplicity equal to its number of occurrences.',
 'all bags, candidate supports, selectors and multiplicities over the alphabets within the bounds', [G + 'bag_supp/bag_supp.rs', G + 'bag_supp/utils.rs'],
 [('strict sort plus two-way inclusion', G + 'bag_supp/bag_supp.rs')])
gad('G08', 'Bag disjointness accepts exactly bags without common values',
 'Bag disjointness is never accepted when the two bags share a selected value, whatever advice the prover gives, and the honest argument is accepted whenever they share none and neighbouring values lie within the range table, including repeated values inside one bag and bags of different sizes.',
 'all pairs of bags over the alphabets within the bounds; every listed deviation of the advice', [G + 'bag_disjoint/bag_disjoint.rs', G + 'bag_disjoint/utils.rs'],
 [('merged sorted support with multiplicities', G + 'bag_disjoint/bag_disjoint.rs')])
gad('G09', 'Set disjointness accepts exactly disjoint duplicate-free sets',
 'Set disjointness is accepted if and only if the selected values of both sets together contain no value twice (given differences within the range table), for equal and different sizes and whatever order the merged column is given in.',
 'all pairs of columns and selectors over the alphabets within the bounds; every listed deviation of the merged column', [G + 'set_disjoint/set_disjoint.rs'],
 [('sorted merged column', G + 'set_disjoint/set_disjoint.rs')])
gad('G10', 'Set union accepts exactly the sorted union',
 'The set-union argument is accepted if and only if the claimed union column, restricted to selected rows, is strictly increasing and holds exactly the values occurring in at least one of the two inputs.',
 'all inputs and claimed unions over the alphabets within the bounds', [G + 'set_union/set_union.rs'],
 [('sum bag and multiplicities', G + 'set_union/set_union.rs')])
gad('G11', 'Set difference accepts exactly the difference',
 'For duplicate-free inputs, the set-difference argument is accepted if and only if the claimed difference holds exactly the values of the first set that are not in the second; no choice of the claimed common part or multiplicities makes another difference accepted.',
 'all inputs, claimed differences and common parts over the alphabets within the bounds', [G + 'set_diff/set_diff.rs'],
 [('disjointness, sum and inclusion', G + 'set_diff/set_diff.rs')])
gad('G12', 'Set intersection accepts exactly the intersection',
 'For duplicate-free inputs, the set-intersection argument is accepted if and only if the claimed intersection holds exactly the common values of both sets; no choice of the left-only and right-only parts makes another intersection accepted.',
 'all inputs and claimed splits over the alphabets within the bounds', [G + 'set_intersect/set_intersect.rs'],
 [('two sums and disjointness', G + 'set_intersect/set_intersect.rs')])
gad('G13', 'Join reduction separates matching from non-matching rows',
 'The join-reduction argument is accepted if and only if both marker columns are boolean and mark, among the selected rows of each side, exactly those whose value does not occur among the selected rows of the other side (given differences within the range table); the honest helper produces such markers for every pair of columns.',
 'all pairs of columns, selectors and marker columns over the alphabets within the bounds', [G + 'join_reduction/join_reduction.rs', G + 'join_reduction/utils.rs'],
 [('disjointness and mutual inclusion of the split bags', G + 'join_reduction/join_reduction.rs')])
gad('G14', 'One-to-many join accepts exactly the correct joined table',
 'In the one-to-many join every selected row of the result consists of a selected row of the key table and a selected row of the many-side table that agree on the join columns, with one result row for each selected many-side row; a result with a row taken from an unselected or non-matching key row, or with a mismatched join value, is not accepted, and a many-side row without partner is refused.',
 'all key and many-side tables over the alphabets within the bounds, and all claimed row transformations', [G + 'final_join_one_to_many/final_join_one_to_many.rs', G + 'final_join_one_to_many/utils.rs'],
 [('row transformation by inclusion of folded rows, equality of join columns', G + 'final_join_one_to_many/final_join_one_to_many.rs')])
gad('G15', 'Index transformation accepts only rows of the source table',
 'The index-transformation argument is accepted if and only if every selected row of the output table, taken as a whole across all columns, occurs as a selected row of the input table; matching values column by column in different rows is not enough.',
 'all input and output tables of one to three columns over the alphabets within the bounds', [G + 'index_transform/index_transform.rs', G + 'index_transform/utils.rs'],
 [('random folding of columns and inclusion', G + 'index_transform/utils.rs')])
gad('G16', 'Cross product lists every pair of rows',
 'The cross product of two tables has the columns of both, and its rows, with their selectors, are exactly all pairs of a row of the first and a row of the second, a pair being selected when both parts are; prover and verifier derive the same columns for every combination of sizes and column counts.',
 'all pairs of tables over the alphabet with zero to three variables and one to two columns each', [G + 'cross_product/cross_product.rs', G + 'cross_product/utils.rs'],
 [('variable extension at front and back', G + 'cross_product/utils.rs')])
gad('G17', 'Group-by results are the true groups, counts and sums',
 'A group-by result is accepted if and only if its groups are exactly the distinct selected values of the grouping column, the count of each group is its number of selected rows, and the sum of each group is the sum of the aggregated column over its selected rows; the result table carries one column per requested aggregation, and unsupported column choices are refused.',
 'all tables over the alphabets within the bounds, all claimed supports, counts and sums', [G + 'group_by/group_by.rs'],
 [('support argument, weighted bag argument for sums', G + 'group_by/group_by.rs')])
gad('G18', 'Helper advice is correct for every input',
 'For every input the helpers that prepare advice return what they promise: inclusion multiplicities, supports with counts, disjointness advice, join markers, row transformations, and the splits of two bags or sets into left-only, common and right-only parts, in any order of the input rows, with repeated values, unselected rows and different sizes.',
 'all columns and selectors over the alphabets up to four rows (eight with a smaller alphabet)', [G + 'util/intermed_bag_calc.rs', G + 'util/multiplicity_count.rs', G + 'bag_inclusion/utils.rs', G + 'bag_supp/utils.rs', G + 'bag_disjoint/utils.rs', G + 'join_reduction/utils.rs', G + 'final_join_one_to_many/utils.rs'],
 [('merge of sorted active values', G + 'util/intermed_bag_calc.rs')])
prop('G19', 'Gadgets compose within one session',
 'Any sequence of gadgets run in one session, on both sides in the same order and possibly sharing inputs or feeding one gadget\'s output to the next, is accepted if and only if each statement is true by itself; no gadget disturbs the identifiers, claims or challenges of another.',
 ['programs', 'histories'], 'every sequence of up to three gadget instances from a menu of true and false statements',
 'Each test runs one gadget in a fresh session.',
 ['src/zksql_poly_iop', 'src/tracker'], [('shared session state', 'src/tracker/prover_tracker.rs')], ['compile_proof / verify_claims after the sequence'], HOOK_G)
prop('G20', 'Malformed gadget inputs are refused, not accepted',
 'When gadget inputs have mismatched sizes, mismatched numbers of columns or weights, empty lists, out-of-range column choices or missing partners, the prover or the verifier refuses with an error; no malformed combination of the columns a statement is about ends in an accepted proof of a false or undefined statement, and a proof made for one choice of inputs is not accepted by a verifier that was given other inputs for which the statement is false.',
 ['configurations', 'inputs'], 'every combination of input shapes within the bounds for each gadget',
 'No test passes mismatched shapes.',
 ['src/zksql_poly_iop'], [('shape checks', 'src/zksql_poly_iop')], ['prove / verify results'], HOOK_G)
prop('N01', 'Results do not depend on how parallel work is scheduled',
 'Proofs, evaluations and commitments computed with the parallel implementation are the same for every number of worker threads and every interleaving of the parallel loops.',
 ['schedules'], 'all interleavings of the data-parallel loops',
 'Tests run under whatever schedule happens.',
 ['src/arithmetic/multilinear_polynomial.rs', 'src/subroutines/poly_iop/sum_check/prover.rs', 'src/arithmetic/virtual_polynomial.rs'],
 [('rayon data-parallel iterators over disjoint outputs', 'src/arithmetic/multilinear_polynomial.rs')], ['public functions'])

json_lines = [json.dumps(p, ensure_ascii=False) for p in P]
open('properties.jsonl', 'w').write('\n'.join(json_lines) + '\n')

claimed = open('tools/claimed.txt').read().split()
TECH = {
 'T': 'explicit-state exploration of all operation histories of the real session code up to a bound, against a table-level reference model',
 'S': 'exhaustive bounded exploration of the real protocol code: all polynomials / message alterations in the stated space, against a reference evaluator',
 'K': 'exhaustive bounded exploration of the real commitment code: all sizes, tables, points and single substitutions in the stated space',
 'A': 'exhaustive bounded exploration of the real arithmetic code against the definition',
 'G': 'exhaustive bounded exploration of the real prover and verifier gadget code (all inputs and prover deviations in the stated space) with an exact reference semantics',
}
NOTE = {
 'T': 'Complete within the stated bounds on depth, sizes and values; challenges are the concrete transcript ones (an algebraic coincidence has probability about 2^-250). Trusts the reference model in the harness and, for spaces not run with the real commitment scheme, the transparent commitment stand-in, whose behaviour K01 checks against the real one.',
 'S': 'Complete within the stated bounds; challenges are the concrete transcript ones. Trusts the reference evaluator.',
 'K': 'Complete within the stated bounds for fixed public parameters from a fixed seed; cryptographic hardness is assumed, not shown.',
 'A': 'Complete within the stated bounds; trusts the direct definition used as oracle.',
 'G': 'Complete within the stated bounds on rows and values. Every claim the verifier records is evaluated on every row (ideal verifier), and a stated share of cases is additionally replayed through the real proof compilation and verification; dishonest provers are the listed substitutions of committed columns. Small-scope assumption for larger tables.',
}
na = {'N01': 'The only concurrency is rayon data-parallel loops over disjoint slots inside a third-party pool; no controlled scheduler can own those threads without replacing rayon, and loom/shuttle do not model it. The loops share no mutable state (Rust\'s type system rejects it), so the interleavings are not observable; comparing thread counts would be sampling.'}
extra_na = {p['id']: 'check not built yet' for p in P if p['id'] not in claimed and p['id'] not in na}
na.update(extra_na)
def git(*a): return subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in git('log', '--reverse', '--format=%H %s').splitlines() if l.split(' ', 1)[1].startswith('hooks:')]
man = {
 'version': 1, 'setup_cmd': './check.sh build',
 'hooks': {'guard': 'cfg(vp_hooks)', 'enable': 'RUSTFLAGS="--cfg vp_hooks"', 'source_commits': hooks},
 'checks': [{'property': p['id'], 'quick_cmd': f"./check.sh {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./check.sh {p['id']}",
             'evidence_file': f"evidence/{p['id']}.json", 'technique': 'model checking: ' + TECH[p['id'][0]], 'level': 'model_checking', 'level_note': NOTE[p['id'][0]]}
            for p in P if p['id'] in claimed],
 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
 'notes': 'One Rust harness crate (harness/) explores the real crate in a release and a debug-assertion build; see DESIGN.md.',
}
json.dump(man, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, sch); assert p['statement'].count('. ') <= 2, p['id']
    print('valid', len(P), 'properties,', len(man['checks']), 'checks')
except ImportError: print('not validated')
