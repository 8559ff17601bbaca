#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(d)

p("P01", "Gate completeness: satisfied polynomial gates always prove and verify",
  "For every constraint system made of polynomial gates over witness, instance and fixed columns (any mix of cyclic row offsets that denote distinct points for one column, degrees, several gates, full or reduced set of enforced rows) and every assignment on which all gates vanish on all enforced rows, if key preparation accepts the system then proving succeeds and the verifier accepts the proof. Key preparation refuses a system only when no gate has a degree high enough for a quotient of at least one polynomial of the domain's size, and it refuses with an error value.",
  ["inputs", "programs", "configurations"],
  "all gate expressions up to a depth over the column kinds and row offsets, all assignments over a small value alphabet, all enforced-row sets of the listed shapes, all listed domain sizes",
  "The tests prove a few fixed circuits with one assignment each (offset 0 or +1, one domain size); offsets of other columns, negative offsets, high degrees, several gates, reduced vanishing sets and their combinations are never run.",
  ["src/turbo_plonk.rs", "src/piop/prover.rs", "src/indexer.rs", "src/oracles/traits.rs", "src/oracles/rotation.rs"],
  [("coset evaluation of gates and quotient split", "src/piop/prover.rs prover_quotient_round"), ("evaluation of gates at the challenge", "src/turbo_plonk.rs verify"), ("sizing of the extended domain", "src/indexer.rs index")],
  ["result of key preparation, prove and verify"])

p("P02", "Gate soundness: a violated gate is never accepted",
  "If an assignment violates any gate on any enforced row, no proof made for it by following the proving procedure is accepted, whichever gate and row are violated and even when violations of different gates or rows cancel each other, and even when one of its claimed values is then replaced so that the constraint identity holds at the evaluation point. The verifier's decision does not depend on rows outside the enforced set.",
  ["inputs", "programs", "configurations"],
  "all violating assignments over a small alphabet for every gate system of the enumerated family: every single violated (gate,row) pair, every pair of violations that cancels with opposite or scaled values",
  "No existing test checks that the complete protocol rejects a false statement for a gate; a verifier that ignored all gates but the first, or merged two gates with the same separator, would pass them.",
  ["src/turbo_plonk.rs", "src/piop/prover.rs"],
  [("separation of gates by powers of a challenge", "src/turbo_plonk.rs verify powers_of_alpha"), ("final quotient identity check", "src/turbo_plonk.rs verify QuotientNotZero")],
  ["result of verify"])

p("P03", "Copy completeness: consistent wires always prove and verify",
  "For every set of copied witness columns, every permutation of their usable cells (with row offsets as in gate completeness) and every assignment that is constant on each cycle of the permutation and satisfies the gates, proving succeeds and the verifier accepts, whatever values stand in the rows outside the usable ones and however many columns are copied relative to the degree budget.",
  ["inputs", "programs", "configurations"],
  "all permutations of a small cell grid, all numbers of columns 1..k (so one, two and more grand products), usable-row counts, full and reduced enforced-row sets, all cycle-constant assignments over a small alphabet",
  "The tests run two hand-made permutations with one assignment each; the stitching of several products, odd last chunks, and non-trivial blinding rows are reached for one shape only.",
  ["src/permutation/mod.rs", "src/permutation/grand_product.rs", "src/indexer.rs"],
  [("grand product construction", "src/permutation/grand_product.rs construct_agg_poly"), ("chunking and stitching", "src/permutation/mod.rs"), ("number of grand products", "src/permutation/mod.rs number_of_z_polys")],
  ["result of prove and verify"])

p("P04", "Copy soundness: an inconsistent wire is never accepted",
  "If an assignment gives different values to two cells that the permutation ties together, no proof is accepted, even when the prover builds its running products dishonestly: starting them from another value, rescaling them at any row or any boundary between products, setting them to zero, or permuting the same multiset of values. This holds for every pair of tied cells, including those in the first and last usable row and in different products.",
  ["inputs", "programs", "fault_sequences"],
  "all permutations and all violating assignments of a small cell grid, times every dishonest running product of the enumerated families (rescale or zero from each row of each product)",
  "The tests contain no dishonest prover; they only show that good wiring is accepted.",
  ["src/permutation/mod.rs", "src/permutation/grand_product.rs", "src/turbo_plonk.rs"],
  [("first-row, stitching and last-row checks", "src/permutation/mod.rs open_argument"), ("transition check", "src/permutation/grand_product.rs open_argument")],
  ["result of verify"],
  "prover-side interception of the running product and suppression of the prover's own sanity asserts")

p("P05", "Lookup completeness: values contained in the table always prove and verify",
  "For every lookup whose input tuples all occur among the table tuples on the usable rows, proving succeeds and the verifier accepts: for inputs that are any polynomial expression of witness, instance and fixed columns at any row offsets that denote distinct points per column, for tables of one or more columns with repeated entries and any row offset, for several lookups at once and together with copy constraints.",
  ["inputs", "programs", "configurations"],
  "all input columns over all tables of a small alphabet and row count, enumerated input-expression and offset shapes, one and two lookups, tuple arity 1..3, with and without copy constraints",
  "The tests run one lookup shape with one assignment; offsets on instance, fixed and table columns, non-linear inputs, repeated table entries and several lookups are not run.",
  ["src/lookup/mod.rs", "src/lookup/permute.rs", "src/lookup/subset_equality.rs", "src/turbo_plonk.rs"],
  [("prover evaluation of inputs and tables", "src/lookup/mod.rs construct_a_and_s_polys_prover"), ("verifier evaluation of inputs and tables", "src/lookup/mod.rs construct_a_and_s_unpermuted_polys_verifier"), ("column matching", "src/lookup/permute.rs")],
  ["result of prove and verify"])

p("P06", "Lookup soundness: a value missing from the table is never accepted",
  "If an input tuple on some usable row does not occur in the table, no proof is accepted, whatever pair of rearranged columns and whatever running product the prover commits to. This includes tuples whose entries each occur in the right table columns but not on the same row, and holds for every lookup of a system with several.",
  ["inputs", "programs", "fault_sequences"],
  "all violating input columns over all tables of a small alphabet, times all pairs of rearranged columns over that alphabet and the enumerated dishonest running products",
  "The tests contain no dishonest prover and no failing lookup at protocol level.",
  ["src/lookup/mod.rs", "src/lookup/subset_equality.rs", "src/turbo_plonk.rs"],
  [("first-row and adjacency checks", "src/lookup/mod.rs open_argument"), ("running product checks", "src/lookup/subset_equality.rs open_argument"), ("tuple compression", "src/lookup/mod.rs theta")],
  ["result of verify"],
  "prover-side interception of the rearranged columns and the running product")

p("P07", "Any alteration of an accepted proof is rejected",
  "Replacing any single commitment, any single claimed value or the opening argument of an accepted proof by another value, exchanging two unequal elements of the same list, or making several claimed-value changes that cancel in a sum, makes the verifier reject. No part of a proof is ignored by the verifier.",
  ["inputs", "fault_sequences", "configurations"],
  "every element of every field of the proof, every listed replacement value, every pair of elements within and across lists with compensating changes, for several circuit shapes that populate every field",
  "No existing test alters a proof.",
  ["src/turbo_plonk.rs", "src/multiproof/piop/mod.rs"],
  [("quotient identity", "src/turbo_plonk.rs verify"), ("batched opening check", "src/multiproof/piop/mod.rs verify"), ("registration of claimed values", "src/turbo_plonk.rs verify")],
  ["result of verify"])

p("P08", "Malformed proofs are refused with an error, never with a crash",
  "For every proof obtained from an accepted one by dropping, duplicating or adding elements of any of its lists (down to empty), by exchanging elements between lists or by combining several such edits, verification returns an error value. It neither panics nor accepts.",
  ["inputs", "fault_sequences"],
  "every list of the proof times every resize, and all pairs of such edits, for circuit shapes that populate every list",
  "No existing test gives the verifier a malformed proof.",
  ["src/turbo_plonk.rs", "src/multiproof/piop/mod.rs"],
  [("length checks", "src/turbo_plonk.rs verify"), ("opening-set count", "src/multiproof/piop/mod.rs verify")],
  ["result of verify, panics"])

p("P09", "A proof is bound to its statement",
  "A proof accepted for one statement is rejected when verified against any other statement: a different instance value on any row, different fixed, table or permutation columns, a different selector of unusable rows, a gate set or gate order that gives a different combined constraint polynomial for the proved assignment, different lookups or a different verification key. A prover who may choose an instance column after seeing all other messages still cannot get an accepted proof for a statement that has no valid witness.",
  ["inputs", "configurations", "fault_sequences"],
  "every single-cell change of every public column to each alphabet value, every listed change of the gate and lookup lists, and every adaptive choice of an instance solving the verifier's equation at the challenges of an existing transcript",
  "The tests verify each proof against its own statement only.",
  ["src/turbo_plonk.rs", "src/oracles/instance.rs", "src/data_structures.rs"],
  [("instance evaluation by the verifier", "src/oracles/instance.rs"), ("absorption of the instance", "src/turbo_plonk.rs prove, verify"), ("commitments of fixed data in the opening check", "src/turbo_plonk.rs verify")],
  ["result of verify"])

p("P10", "Every challenge depends on every earlier prover message and the public input",
  "Prover and verifier derive the same sequence of challenges from a proof, and each challenge changes whenever any earlier prover message changes: the public input, each commitment, each claimed value, the batching commitment and the batched values. No challenge is drawn before the messages it must depend on have been fixed, and consecutive challenges drawn together are distinct draws.",
  ["inputs", "histories", "fault_sequences"],
  "every element of every prover message and of the public input changed one at a time, for circuit shapes that populate every message; every challenge observed before and after",
  "The tests never look at the transcript; a verifier that forgets to bind a message accepts all the same honest proofs.",
  ["src/turbo_plonk.rs", "src/piop/verifier.rs", "src/multiproof/piop/mod.rs", "src/multiproof/piop/verifier.rs"],
  [("absorb calls", "src/turbo_plonk.rs prove, verify"), ("challenge draws", "src/piop/verifier.rs"), ("opening-phase draws", "src/multiproof/piop/verifier.rs")],
  ["the random-oracle object given to the protocol (a type parameter)"])

p("P11", "Batched opening is complete and binding for every query pattern",
  "For any set of committed polynomials each queried at any non-empty set of row offsets of one point, an honest batched opening of the true values is accepted; and it is rejected when any claimed value of any polynomial at any offset is false, also when several false claims cancel in an unweighted sum, when the batched values have the wrong number, or when any part of the opening is altered.",
  ["inputs", "configurations", "fault_sequences"],
  "all assignments of offset sets to up to k polynomials, every single false claim, every pair of false claims with compensating errors, every resize of the batched values; over a small field all challenges",
  "The tests open two fixed query patterns honestly and never give a false claim.",
  ["src/multiproof/piop/mod.rs", "src/multiproof/piop/prover.rs", "src/multiproof/poly.rs"],
  [("grouping by offset set", "src/multiproof/piop/prover.rs init_prover"), ("interpolation and vanishing polynomials", "src/multiproof/poly.rs"), ("random combination", "src/multiproof/piop/mod.rs verify")],
  ["result of the batched opening and its check"])

p("P12", "Key preparation sizes the quotient domain for every constraint system",
  "For every constraint system over a field with large enough domains, key preparation either returns an error or keys whose evaluation domain for the quotient is large enough for the highest-degree constraint of any kind (gate, copy, lookup), with correct inverses of the polynomial that vanishes on the enforced rows at every point of that domain. Prover-side and verifier-side column descriptions of the same system give the same keys.",
  ["inputs", "configurations", "programs"],
  "all combinations of gate degree, number of copied columns, lookup input degree, number of removed rows and domain size within bounds",
  "The tests prepare keys for a handful of shapes; degree values that fall exactly on a power of two or below the domain size are not reached.",
  ["src/indexer.rs", "src/util.rs", "src/vo/expression.rs"],
  [("degree computation", "src/vo/expression.rs degree"), ("domain size choice", "src/indexer.rs index"), ("inverse vanishing values", "src/indexer.rs compute_zh_evals, src/util.rs")],
  ["returned keys and errors"])

p("P13", "Row, coset and point views of a column agree under every row offset",
  "For every column, every row offset (positive, negative, zero, larger than the domain) and every position, reading the column at that offset through its row values, through its values on the extended coset and through its polynomial at the shifted point gives the same field element. A forward offset by k and a backward offset by the domain size minus k denote the same cell, and offset zero is the same in both directions.",
  ["inputs", "configurations"],
  "all offsets in both directions up to a multiple of the domain size, all positions, all listed domain and extension sizes, all column kinds, all columns of a basis",
  "The source says negative rotations are untested; the tests use offsets 0 and +1.",
  ["src/oracles/traits.rs", "src/oracles/rotation.rs", "src/oracles/witness.rs", "src/oracles/instance.rs", "src/oracles/fixed.rs"],
  [("coset indexing", "src/oracles/traits.rs query_in_coset"), ("row indexing", "src/oracles/traits.rs query_at_omega_in_original_domain"), ("shifted point", "src/oracles/rotation.rs")],
  ["oracle query functions"])

p("P14", "Lookup column matching is a faithful rearrangement",
  "For every input column and table column of equal length in which every input value occurs in the table, matching returns a rearrangement of the input and a rearrangement of the table such that the first entries agree and every later input entry equals the table entry beside it or the input entry before it. If some input value is missing from the table, matching returns no columns at all.",
  ["inputs"],
  "all pairs of columns over an alphabet of k values and lengths up to n",
  "One hand-written example is tested, and rearrangement (multiset equality) is not checked by it.",
  ["src/lookup/permute.rs"],
  [("sorting and assignment of leftover table entries", "src/lookup/permute.rs permute_for_lookup")],
  ["returned columns"])

p("P15", "Built-in gates mean what they document",
  "Each built-in gate and lookup vanishes on exactly the rows its documentation describes (for the and/xor gate, given that the product wire holds the product of the two quads): multiplication, plonk arithmetic with three and four wires including every selector, rescue round, two-bit range (delta), two-bit and/xor, and one- and three-column lookups. Each reads exactly the wires, selectors and row offsets it documents, in that order.",
  ["inputs", "programs"],
  "all assignments of the gate's wires and selectors over small value sets (all of the small field for low-arity gates), compared with an independent definition",
  "The tests check one or two satisfying assignments per gate and hardly any violating one.",
  ["src/vo/precompiled/mul.rs", "src/vo/precompiled/plonk_arith.rs", "src/vo/precompiled/rescue.rs", "src/vo/precompiled/logic.rs", "src/vo/precompiled_lookups/simple_1_arith.rs", "src/vo/precompiled_lookups/simple_3_arith.rs"],
  [("gate expressions and query lists", "src/vo/precompiled"), ("lookup expressions", "src/vo/precompiled_lookups")],
  ["value of the configured expression on every row; verdict of the protocol"])

p("P16", "Constraint expressions denote the polynomials they were built from",
  "Configuring a constraint with a choice of columns gives an expression that evaluates, for every assignment, to the value of the original formula with each query replaced by the chosen column at the chosen row offset, and every queried column is registered with exactly the offsets it is queried at. The reported degree is never smaller than the true degree of the resulting polynomial, operators follow ring laws, and column labels that cannot be resolved or constraints that were never configured give error values.",
  ["inputs", "programs"],
  "all expression trees up to a depth over all leaf kinds and operators, all index maps of the enumerated kind, all assignments over a small alphabet",
  "The tests configure a few fixed expressions.",
  ["src/vo/virtual_expression.rs", "src/vo/expression.rs", "src/vo/generic_vo.rs", "src/vo/generic_lookup_vo.rs", "src/vo/query.rs"],
  [("resolution of virtual queries", "src/vo/virtual_expression.rs to_expression"), ("registration of offsets", "src/vo/generic_vo.rs, src/vo/generic_lookup_vo.rs"), ("degree and evaluation", "src/vo/expression.rs")],
  ["configured expressions and oracle offset sets"])

p("P17", "The mock prover accepts exactly the satisfied gate systems",
  "The mock prover completes (neither panics nor returns an error) exactly when every gate vanishes on every row of the domain, for every gate system with any column kinds and row offsets and every assignment. Whenever it completes for a system enforced on the whole domain, the real prover and verifier accept that system too.",
  ["inputs", "programs"],
  "the gate systems and assignments of the gate-completeness enumeration, satisfied and violated, every violated row and gate",
  "The tests run it on one satisfied circuit.",
  ["src/mock_prover.rs"],
  [("row-by-row evaluation", "src/mock_prover.rs prove")],
  ["panic or completion"], "re-export of the private module")

p("P18", "Commitment arithmetic matches polynomial arithmetic",
  "For all polynomials and scalars, adding, scaling, negating and multi-scalar combining commitments gives the commitment of the corresponding polynomial combination, with randomness combined in the same way so that the combined commitment opens with the combined randomness. The zero commitment is neutral, recognised as zero, and equality of commitments holds exactly for equal ones.",
  ["inputs"],
  "all polynomials and scalars of small generating sets (linear in each argument), all lengths of multi-scalar combinations up to a bound, hiding and non-hiding",
  "One random pair of polynomials is tested for one identity.",
  ["src/commitment.rs"],
  [("pairing-based commitment implementation", "src/commitment.rs")],
  ["commitments, openings and checks"])

p("P19", "Transcript randomness is a function of the exact input history",
  "After any history of inputs the generator's output depends only on the sequence of inputs absorbed: equal histories give equal streams however many values were drawn in between, and any two histories that differ in any input of any length, its order or the initial input give different streams (initial inputs shorter than a digest). Absorbing always changes the stream, and all draw functions read the same stream.",
  ["histories", "inputs"],
  "all absorb/draw histories up to a depth over a small input alphabet",
  "The generator has no direct tests.",
  ["src/rng.rs"],
  [("seed chaining", "src/rng.rs absorb"), ("initial seed", "src/rng.rs initialize")],
  ["random stream"])

p("P20", "Everything a proof reveals about the witness is freshly blinded",
  "Every witness-dependent commitment in a proof is hiding with randomness drawn from the caller's generator, and every auxiliary witness-dependent column has independently random values in all of its unusable rows. Two proofs of the same statement with independent randomness share no witness-dependent commitment, and each random value is used once.",
  ["inputs", "configurations", "fault_sequences"],
  "every commitment and every unusable row of every auxiliary column for all circuit shapes, all choices of which random draw is varied; over a small field all values of each draw",
  "Tests never look at blinding; a prover without any blinding passes all of them.",
  ["src/turbo_plonk.rs", "src/permutation/grand_product.rs", "src/lookup/mod.rs", "src/lookup/subset_equality.rs", "src/oracles/witness.rs", "src/multiproof/piop/prover.rs"],
  [("hiding bounds", "src/oracles/witness.rs to_labeled, src/multiproof/piop/prover.rs"), ("random tails", "src/permutation/grand_product.rs, src/lookup")],
  ["the commitment scheme and generator given to the prover"])

p("P21", "Proof serialization is a faithful, total round trip",
  "Writing and reading back any proof, compressed or uncompressed, yields a proof with identical contents that the verifier treats identically, and the announced size equals the written size. Reading any truncation of a written proof returns an error and never panics, and any altered encoding is either refused or leads to a rejected proof unless it decodes to the same contents.",
  ["inputs", "fault_sequences"],
  "all circuit shapes (every list empty and non-empty), every truncation length, every byte altered",
  "No existing test serializes a proof.",
  ["src/turbo_plonk.rs", "src/multiproof/mod.rs"],
  [("derived serialization of the proof", "src/turbo_plonk.rs TPProof, src/multiproof/mod.rs Proof")],
  ["bytes, decoded proof, verify result"])

p("P22", "Proving and verifying leave no state that changes later results",
  "The verdict for a proof is the same whether its keys, preprocessed inputs and column descriptions are fresh or have been used before in any sequence of successful or failing proofs and verifications, of the same or other proofs. Proving is a function of its inputs and its random values alone.",
  ["histories", "fault_sequences"],
  "all sequences up to a depth of verify(good proof), verify(another good proof), verify(altered proof), prove over shared objects, compared with fresh objects",
  "Each test uses its objects once.",
  ["src/turbo_plonk.rs", "src/oracles/witness.rs", "src/oracles/fixed.rs", "src/data_structures.rs"],
  [("registration of evaluations and commitments in shared objects", "src/turbo_plonk.rs verify"), ("cached coset evaluations", "src/oracles")],
  ["results and produced proofs along the history"],
  None,
  [dict(name="registered evaluations", meaning="claimed values kept in verifier column objects", where="src/oracles/witness.rs evals_at_challenges"), dict(name="registered offsets", meaning="offsets added while configuring constraints", where="src/oracles queried_rotations")])

p("P23", "Prover and verifier reject ill-formed set-ups with errors",
  "Whenever a constraint refers to a column that was not supplied or was never configured, a column is read at two row offsets that denote one point (and has to be opened there), a lookup uses a witness or instance column as table or different numbers of inputs and table columns, the numbers of copied columns, permutation columns and coset shifts disagree, or the commitment key is too small, then key preparation, configuration, proving or verifying returns an error value. They never accept and never panic.",
  ["inputs", "configurations", "fault_sequences"],
  "every removal or renaming of one column description on the prover side, the verifier side or in key preparation, every unconfigured constraint, every wrong table kind or arity, every disagreement in the numbers of copied columns, every pair of offsets, every key smaller than needed",
  "The tests never leave the happy path.",
  ["src/turbo_plonk.rs", "src/piop/prover.rs", "src/piop/error.rs", "src/lookup/mod.rs", "src/indexer.rs", "src/error.rs", "src/vo/error.rs"],
  [("error values for missing columns", "src/piop/error.rs"), ("error conversion", "src/error.rs")],
  ["result of key preparation, prove and verify; panics"])

p("P24", "The shape of a proof depends on the constraint system alone",
  "All proofs that the prover makes for one constraint system have the same number of elements in every list and, with the real commitment scheme, the same encoded size, whatever the assignment, the public input and the randomness are; in particular when columns or the quotient are zero.",
  ["inputs"],
  "every satisfying assignment of small systems; unconstrained cells of complete systems; all-zero and constant assignments",
  "Tests look at one assignment per system.",
  ["src/piop/prover.rs", "src/turbo_plonk.rs", "src/lookup/mod.rs", "src/multiproof/piop/prover.rs"],
  [("splitting of the quotient", "src/piop/prover.rs"), ("lists of claimed values", "src/turbo_plonk.rs prove")],
  ["lengths of all lists of a proof, encoded size"])
p("P25", "Equivalent descriptions of a constraint system are interchangeable",
  "How a constraint system is described does not matter as long as the descriptions say the same. Any distinct names of the columns of one kind (also names that the protocol uses itself, the same names in several kinds, or names in another order), any coset representatives for the copied columns, columns that no constraint reads, and a bigger commitment key still accept exactly the satisfying assignments. The ways to build the columns of the keys (from polynomial or evaluations, with or without extended evaluations, from a commitment with or without label, with offsets registered in any order or repeatedly), the order in which constraints are declared on columns, preparing the key from prover's or verifier's columns, and algebraically equal ways to write a constraint of the same degree give the same proof for the same randomness, and the verifier accepts and rejects the same proofs.",
  ["inputs", "histories"],
  "every system of the catalogue; every name scheme, order of names, combination of ways to build the keys, order of declaration, rewriting rule and place, coset choice and set of unread columns listed in the evidence",
  "Tests use one description per circuit.",
  ["src/data_structures.rs", "src/oracles/fixed.rs", "src/oracles/witness.rs", "src/oracles/instance.rs", "src/oracles/traits.rs", "src/indexer.rs", "src/vo/generic_vo.rs", "src/vo/generic_lookup_vo.rs", "src/vo/virtual_expression.rs", "src/piop/verifier.rs", "src/turbo_plonk.rs"],
  [("names to positions", "src/turbo_plonk.rs"), ("offsets of a column", "src/oracles/traits.rs"), ("preprocessed input", "src/data_structures.rs"), ("degrees", "src/indexer.rs compute_quotient_degrees")],
  ["bytes of the proof", "result of verification"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
