#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, q, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=q), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech])))
I = 'inputs'; IC = 'inputs configurations'; IH = 'inputs histories'
p('D01', 'Copying a data set is complete and independent',
  'Copying a data set yields one equal in every part: vector, matrix, weights, text, row/column/text/vector names, title, and every following page, present or absent as in the source. Overwriting the source afterwards changes nothing in the copy. Copying into existing storage copies the same parts and refuses when the sizes differ.', IC,
  'every content of the numeric parts, every combination of present and absent parts, one to three pages', 'Tests copy a few fixed data sets; the combinations of absent and present parts with names and pages are not enumerated.',
  'apop_data.m4.c apop_name.m4.c', [('copy', 'apop_data.m4.c: apop_data_copy, apop_data_memcpy'), ('names', 'apop_name.m4.c: apop_name_copy')])
p('D02', 'Stacking and splitting keep every element, name and weight in place',
  'Stacking two data sets by rows or columns places every element of the vector, matrix, weights and text, and every name, of the first before those of the second, out of place or in place, and reports a size mismatch as an error. Splitting at a position partitions the elements and names into the two parts in the original order.', IC,
  'all contents; every combination of parts in each input; every split position including the ends', 'Tests stack and split a few complete data sets.',
  'apop_data.m4.c', [('stack', 'apop_data_stack'), ('split', 'apop_data_split')])
p('D03', 'Transposition swaps indices and names, and twice is the identity',
  'Transposing a data set, in place or not, moves element (i,j) of the matrix and of the text grid to (j,i), exchanges row and column names, and leaves the source alone when out of place. When text is transposed, its columns get the row names, and the text column names go to the rows if there are no matrix column names. Doing it twice restores the matrix and the text, and the names if there is no text, only text, or the matrix columns are named.', IC,
  'all contents, all shapes including non-square and absent parts', 'Tests transpose one or two shapes.', 'apop_data.m4.c', [('transpose', 'apop_data_transpose')])
p('D04', 'Reading, writing and views address the intended element',
  'Setting an element by row/column number or name, page, vector or weight position changes exactly that element, and reading or taking a pointer at the same address returns it. An address outside the data changes nothing: reading gives NaN, a pointer is NULL, and setting reports an error. Row and column views share memory with the parent and show the right names and sizes.', IC,
  'all values; all addresses in and just out of bounds, by index or by name', 'Tests read and write a handful of in-bounds addresses.', 'apop_data.m4.c apop.m4.h', [('get/set/ptr', 'apop_data_get, apop_data_set, apop_data_ptr'), ('views', 'apop.m4.h: Apop_r, Apop_rs, Apop_c, Apop_cs ...')])
p('D05', 'Removing rows or columns keeps exactly the others, in order',
  'Removing rows or columns by a drop list or a predicate keeps precisely the unmarked ones, in their original order, with their vector, weight, text entries and names still aligned. Removing everything leaves no data and no crash.', I,
  'every subset of rows or columns to drop; all contents; names and text present or absent', 'Tests drop one fixed pattern.', 'apop_data.m4.c', [('rm_rows', 'apop_data_rm_rows'), ('rm_columns', 'apop_data_rm_columns'), ('prune', 'apop_data_prune_columns_base')])
p('D06', 'Pages are found, added and removed by name only',
  'A page added to a data set is found by its title (case-insensitively, exactly or by prefix as requested) and by nothing else; adding and removing a page leaves every other page and its contents in order. Info pages are recognised by their bracketed titles.', IH,
  'every sequence of up to four pages and every title asked for', 'Tests add and fetch a single page.', 'apop_data.m4.c', [('pages', 'apop_data_get_page, apop_data_add_page, apop_data_rm_page')])
p('D07', 'Packing and unpacking data are inverse',
  'Packing a data set into a vector lists the vector, matrix and weights of each page in order, skipping information pages unless all are requested; unpacking the result into a same-shaped set restores every element and touches nothing skipped. Conversions among arrays, vectors, matrices and data sets likewise keep every element in its place.', IC,
  'all values, every mix of page types and parts', 'Tests round-trip one or two shapes.', 'apop_conversions.m4.c', [('pack/unpack', 'apop_data_pack, apop_data_unpack'), ('fill', 'apop_data_fill_base, apop_array_to_vector, apop_vector_to_matrix')])
p('D08', 'Sorting is an ordered permutation of whole rows',
  'Sorting a data set puts the requested sort keys (matrix columns, vector, weights, text, names, in the requested priority) in ascending or descending order, and the result is a permutation of whole rows: each row keeps its own elements, text, weight and name together. A data set that is not sorted in place is left alone.', IC,
  'all numeric values (ties included), every priority among the listed keys, both directions', 'Tests sort one table per key type.', 'apop_sort.m4.c', [('sort', 'apop_data_sort, apop_vector_percentiles')])
p('D09', 'Listwise deletion removes exactly the incomplete rows',
  'Listwise deletion drops exactly the rows with a missing value in the vector, matrix or weights (and, when asked, text), keeps the others in order with their names, text and weights, and returns nothing when no row is complete. In-place and out-of-place agree.', I,
  'every pattern of missing cells', 'Tests use one pattern of NaNs.', 'apop_missing_data.m4.c', [('listwise delete', 'apop_data_listwise_delete')])
p('D10', 'Rank compression and expansion are inverse',
  'Compressing observations to counts per rank gives, for each value, the number (or total weight) of observations with that value, with at least the requested number of bins, and expanding the counts gives back each value as many times.', I,
  'every list of up to six observations of values 0..3, any weights, and any minimum number of bins', 'Tests compress one list.', 'apop_sort.m4.c apop_asst.m4.c', [('rank', 'apop_data_rank_compress, apop_data_rank_expand')])
p('D11', 'Names are stored, found, copied and stacked by the documented rules',
  'A name added to a list is found at its position, exact matches before case-insensitive ones, and -2 is returned for a name that is not there. Copying and stacking names preserves order and content, and printf directives in names are treated as plain text.', IH,
  'every short sequence of additions from an alphabet with case variants, blanks and percent signs', 'Tests look up a few names.', 'apop_name.m4.c', [('names', 'apop_name_add, apop_name_find, apop_name_stack, apop_name_copy')])
p('D12', 'Resizing text grids, pasting and regex matching are exact',
  'Resizing a grid of text keeps every cell that is in both the old and new size and makes the other cells blank, for any sequence of sizes. Pasting writes the cells row by row with the requested separators between what is left after leaving out the cells the prune function asks to, and a regular expression reports a match and its parenthesised parts per the POSIX rules, case-insensitively by default.', IH,
  'every sequence of two resizes up to 4x4; separators and pruning choices; nine expressions', 'Tests resize once.', 'apop_data.m4.c apop_asst.m4.c', [('text', 'apop_text_alloc, apop_text_set, apop_text_paste'), ('regex', 'apop_regex')])
p('D13', 'Unique elements, factors and dummies encode the categories faithfully',
  'The unique elements of a column are its distinct values in ascending order. Turning a column into factors replaces each value by the index of its category, so that the recorded category list maps each index back to the original value; dummies have a one exactly in the column of the row’s category, with the omitted category all zeros. A category list that is already attached is used, and extended once by each category it lacks. Other columns stay as they were.', IC,
  'every three values (numbers) or words; every keep/append/remove option', 'Tests encode a single column.', 'apop_regression.m4.c', [('factors', 'apop_data_to_factors, apop_data_to_dummies'), ('unique', 'apop_vector_unique_elements, apop_text_unique_elements')])
p('D14', 'Linear algebra helpers match their definitions',
  'Dot products of matrices and vectors in every combination and transposition, determinants, inverses, stacking of vectors and matrices, exponentials/logs applied elementwise, and positive-definiteness tests equal their mathematical definitions over the reals, with non-conforming sizes reported as errors.', IC,
  'all real matrices up to 3x3, all operand shapes and transposition flags', 'Tests multiply and invert fixed matrices.', 'apop_linear_algebra.m4.c', [('dot', 'apop_dot'), ('det/inv', 'apop_det_and_inv, apop_matrix_inverse, apop_matrix_determinant'), ('stack', 'apop_vector_stack, apop_matrix_stack')])
p('D15', 'Distances, normalisations and sums match their definitions',
  'Vector distances (Euclidean, Manhattan, discrete, sup, L-norm), vector normalisations (sum to one, range, standardised, mean zero), and sums and means of vectors and matrices equal their definitions for contiguous and strided data, and leave their inputs alone unless documented.', IC,
  'all real vectors of length one to three', 'Tests use fixed vectors.', 'apop_stats.m4.c apop_linear_algebra.m4.c', [('distance', 'apop_vector_distance'), ('normalise', 'apop_vector_normalize'), ('sums', 'apop_vector_sum, apop_matrix_sum, apop_matrix_mean')])
p('D16', 'Weighted and unweighted moments match their definitions',
  'Mean, variance, covariance, correlation, skew and kurtosis of vectors and data sets equal their definitions: repeating an observation and giving it an integer weight agree, weights that sum to one are taken as frequencies, and the unweighted estimators are unbiased where documented. Covariance and correlation matrices hold the pairwise values.', IC,
  'all real observations (two to four) and positive weights', 'Tests compare fixed data to stored values.', 'apop_stats.m4.c', [('moments', 'apop_vector_mean/var/cov/skew/kurtosis, apop_data_covariance, apop_data_correlation')])
p('D17', 'Percentiles, entropy, moving averages and special sums match definitions',
  'Percentiles are the order statistics at the documented positions with the requested rounding; entropy equals minus the sum of p log p for counts or frequencies; a moving average is the mean of each full window; generalised harmonic numbers and multivariate gamma functions equal their defining sums and products and are NaN exactly at poles.', IC,
  'all real data of up to six observations, window sizes to six', 'Tests compare one vector.', 'apop_stats.m4.c apop_hist.m4.c', [('percentiles', 'apop_vector_percentiles'), ('entropy', 'apop_vector_entropy'), ('special', 'apop_generalized_harmonic, apop_multivariate_gamma')])
exec(open(V + '/props2.py').read()) if os.path.exists(V + '/props2.py') else None

NA = []   # (id, reason)
exec(open(V + '/props_na.py').read()) if os.path.exists(V + '/props_na.py') else None
TECH = 'symbolic execution of the library compiled to LLVM IR (reals as SMT/algebraic terms, fork per path), each claim decided by exact normal form or z3; counterexamples replayed on the real build'
def main():
    checks = json.load(open(V + '/checks.json')); na = dict(NA)
    ids = [x['id'] for x in P]; assert len(set(ids)) == len(ids)
    for x in P: assert x['id'] in checks or x['id'] in na, x['id']
    for c in checks: assert c in ids, c
    open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in sorted(P, key=lambda x: x['id'])))
    m = dict(version=1, setup_cmd='python3 /verif/sxlib.py', checks=[dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
        technique=TECH, level='other', level_note='Every claim in the harness holds for all real values of the symbolic inputs and every branch, within these bounds: ' + checks[i]['bounds'])
        for i in sorted(checks)], not_applicable=[dict(property=i, reason=r) for i, r in NA], notes='See DESIGN.md. Arithmetic is over the reals (rounding is outside the model); GSL, libm and SQLite are modelled or run as stated in DESIGN.md.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
    import subprocess
    fx = [l for l in open(V + '/fixes.txt') if l.strip()] if os.path.exists(V + '/fixes.txt') else []
main()
