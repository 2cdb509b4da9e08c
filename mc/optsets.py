"""Option sets used by the checks."""
import itertools

FLAGS = ("structured_numpy_ndarray_as_struct", "make_atleast_2d", "convert_numpy_bytes_to_utf16",
         "convert_numpy_str_to_utf16", "convert_bools_to_uint8", "reverse_dimension_order",
         "store_shape_for_empty")

MATLAB = {"matlab_compatible": True}
PLAIN = {"matlab_compatible": False}


def flags(bits):
    d = {"matlab_compatible": False}
    for i, f in enumerate(FLAGS):
        d[f] = bool(bits >> i & 1)
    return d


def all_flags():
    return [flags(b) for b in range(1 << len(FLAGS))]


ALLON = flags((1 << len(FLAGS)) - 1)
ODD = dict(matlab_compatible=False, complex_names=("x", "y"), group_for_references="/r/s",
           dict_like_keys_name="K/", dict_like_values_name=".V", make_atleast_2d=True,
           oned_as="column", delete_unused_variables=True)
ODD2 = dict(ALLON, complex_names=("imag", "real"), group_for_references="/g", compress=False,
            uncompressed_fletcher32_filter=True)
TINY = dict(matlab_compatible=False, compress=True, compress_size_threshold=0,
            compression_algorithm="lzf")
MATCOL = {"matlab_compatible": True, "oned_as": "column", "compress_size_threshold": 0}
PROFILES = {"matlab": MATLAB, "plain": PLAIN, "allon": ALLON, "odd": ODD, "odd2": ODD2,
            "tiny": TINY, "matcol": MATCOL}
for _b in range(1 << len(FLAGS)):
    PROFILES["f%d" % _b] = flags(_b)


def get(name):
    return dict(PROFILES[name])
