"""What each proof takes for granted (copied into the evidence)."""

LANGUAGE = ['letter case: lower() and upper() are idempotent character maps of the text (final sigma and the code points whose case '
            'mapping is not one-to-one are not modelled)']
CERT = ['UTF-8 encoding is injective and decodes back; struct.pack/unpack have their documented meaning; pack fails outside the '
        'range of its format']
SERVICE = ['database: a table is a sequence of rows, primary keys are unique, a query sees what was stored before the request, rows '
           'added are stored at commit(), commit() does not fail',
           'web framework (ladon) and log are stubs without effect on the result; ladonize does not change the function']

ASSUMPTIONS = {
    '*': ['no other thread changes the objects during a call', 'memory and recursion depth are unbounded',
          'integers and floats are mathematical integers and reals (no NaN, no infinities, no rounding)'],
    'C01': ['trees are finite and have the shape the parser builds (C06)'],
    'C02': LANGUAGE + ['members of set values are numbers, texts or NULL'],
    'C03': LANGUAGE,
    'C04': LANGUAGE,
    'C05': LANGUAGE,
    'C06': ['token sequences begin with the start marker and end with exactly one end marker, as the lexer produces them (C07)'],
    'C07': ['texts containing U+0131, U+017F or U+212A are excluded (their case mapping meets ASCII letters)',
            'int() and float() of a slice are functions of that slice; the decimal value is checked by the bounded cross-check'],
    'C08': ['texts containing U+0131, U+017F or U+212A are excluded', 'int() may fail with ValueError on any slice that is not '
            'plain ASCII digits'],
    'C09': LANGUAGE,
    'C10': ['trees as the parser builds them: distinct node ids, one kind of token per kind of node; SetNode.end_token is not part of '
            'the claim'] + CERT,
    'C11': CERT + ['base64 decoding inverts encoding', 'times and sizes are integers, as the constructors leave them'],
    'C12': CERT + ['RSA PKCS#1 v1.5 verification succeeds exactly for signatures made with the matching private key over the same '
                   'digest; SHA digests of different contents differ (collision freedom); Crypto key import is a function of the text'],
    'C13': ['the clock does not change during one call'],
    'C14': SERVICE + ['import_ac by contract (C11, C12)', 'each uploaded attachment is read once',
                      'rows stored earlier satisfy the invariant that start_session itself keeps (hash belongs to the serial)',
                      'the clock does not change during one call'],
    'C15': SERVICE + ['export_ac by contract (C11, C12)', 'bcrypt.checkpw is a function of the text and the stored hash',
                      'passwords and the pepper are texts', 'files: what is written is what is read back',
                      'the parts of the client address are arbitrary texts; time.gmtime and strftime give arbitrary numbers and '
                      'texts (values of the connection attributes are not part of the claim)',
                      'completeness of attributes requested by name in a request that also names ids is checked by bounded '
                      'execution only', 'the clock does not change during one call'],
    'C16': LANGUAGE,
    'C17': ['configparser: a section is a map from lower-case option names to texts, fallback to DEFAULT as documented; values without '
            'interpolation syntax; section names of the file in upper case', 'setting names are ASCII'],
    'C18': ['present but empty optional texts and byte strings are not distinguished from absent ones by the claim',
            'attribute and extension identifiers within one certificate are distinct'],
}
