
from .preprocessing import Encoder, FeaturesBitArray
from .forest import ForestClassifier, ForestRegressor
