"""Level, technique and note of each property (MANIFEST.json, evidence files).

'proof' where discharged obligations carry the main statement for all values and sizes of what the property quantifies over;
'other' where the obligations are discharged for all values (texts, numbers, data, sizes) but over a finite list of shapes of
specifications or histories, so that the composition over any number of objects or calls is not proved.
In both cases a bounded run-time contract check of whole files runs too; it is never counted as proved.
"""
T = ('contract-based deductive verification of the real code: obligations generated from the syntax trees of /repo by symbolic '
     'interpretation (pyvc), discharged by z3/cvc5; bounded run-time contract checks of whole files as a labelled stand-in')


def P(note):
    return ('proof', T, note)


def O(note):
    return ('other', T, note)


LEVELS = {
    'C01': P('label fields, segment headers and trailers, visible record headers and limits for records of any length, any number of '
             'records and every accepted maximum record length; bounded: composition with real specifications'),
    'C02': P('segmentation of a body of any length, order of any number of records, brackets and flags; a set with any number of '
             'objects; a row with any number of channels'),
    'C03': P('any number of rows, any chunk size, any window, dict/structured/HDF5 sources; FrameData with any number of channels; '
             'numpy/h5py operations (slicing, astype, byteswap, tobytes) are trusted models; shapes of whole files are a finite list'),
    'C04': P('every attribute of every object type with symbolic values, counts and units; template and object grammar; a set with any '
             'number of objects'),
    'C05': P('every attribute of every object type through its add_ method: value, units, count and code for symbolic values, lists of '
             'any length; values assigned later and defaults for a listed set of attributes'),
    'C06': P('every primitive encoder: exact bytes for every value in range, rejection of every value outside; decoding lemmas'),
    'C07': P('identity bytes for any names, origins and copy numbers; every reference attribute; copy numbers, duplicates, dangling '
             'references and origin references of whole files over a finite list of shapes with symbolic texts'),
    'C08': P('descriptor of a channel against the bytes of its rows for any dimensions and rows, listed data types; whole files over a '
             'finite list of shapes'),
    'C09': O('order of the records of whole files: every record is the expected one for symbolic contents (texts, rows, payloads of any '
             'length) over a finite list of shapes (interleaved logical files, sets, frames, no-format objects)'),
    'C10': P('the sinks and the buffered output for any sequence of records, any buffer size; rows by chunks for any chunk size; '
             'whole files over a finite list of shapes'),
    'C11': P('any number of rows, any window and any chunk size, dict/structured/HDF5 sources; whole files over a finite list of shapes'),
    'C12': O('per function: every value is either encoded exactly or rejected (all values); whole specifications: each listed kind of '
             'incomplete or contradictory specification raises, for symbolic contents; the list of kinds is finite'),
    'C13': P('index statistics for any number of rows and any values, for the listed pairs of source and written data types; '
             'floating-point subtraction and comparison are uninterpreted but ordered'),
    'C14': O('histories (earlier writes, other files, rejected calls, modes) over a finite list of kinds with symbolic contents; '
             'the written bytes are those of a fresh process'),
    'C15': P('a record of any length is written under every accepted maximum record length, any buffer size'),
    'C16': P('payloads of any length and content, as bytes or text, in the order of the calls, under their object; number of payloads '
             'in a finite list of shapes'),
    'C17': P('each restriction for any text (any length) and any data; the mode does not leak after the block, normally or by exception'),
    'C18': O('frames and logical files of whole files over a finite list of shapes with symbolic contents: each file is the one it would '
             'be alone'),
    'C19': P('every store into an array, mapping or HDF5 file of the caller fails an obligation, for any rows, window and chunk size, '
             'dict/structured/HDF5/inline sources'),
    'C20': O('each rejected call (every add_ method, assignments, writes) in a finite list of kinds with symbolic contents leaves '
             'the written file as it would be without the call'),
}
