UNARY = ['absolute', 'arccos', 'arccosh', 'arcsin', 'arcsinh', 'arctan',
         'arctanh', 'ceil', 'conj', 'cos', 'cosh', 'deg2rad', 'exp', 'exp2',
         'expm1', 'floor', 'invert', 'iscomplex', 'isinf', 'isnan', 'isreal',
         'log', 'log10', 'log2', 'logical_not', 'negative', 'rad2deg',
         'reciprocal', 'rint', 'sign', 'signbit', 'sin', 'sinh', 'sqrt',
         'square', 'tan', 'tanh', 'trunc']
BINARY = ['add', 'arctan2', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
          'copysign', 'divide', 'equal', 'floor_divide', 'fmax', 'fmin',
          'fmod', 'greater', 'greater_equal', 'hypot', 'ldexp', 'left_shift',
          'less', 'less_equal', 'logical_and', 'logical_or', 'logical_xor',
          'maximum', 'minimum', 'multiply', 'nextafter', 'not_equal',
          'power', 'right_shift', 'sub', 'subtract', 'true_divide']
