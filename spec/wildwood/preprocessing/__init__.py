# Authors: Stephane Gaiffas <stephane.gaiffas@gmail.com>
# License: BSD 3 clause

from .features_bitarray import (
    FeaturesBitArray,
    array_to_bitarray,
    features_bitarray_to_array,
    features_bitarray_fill_column,
)
from .encoder import Encoder
