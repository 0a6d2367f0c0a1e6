"""Loads the real code of /repo under the installed TensorFlow (graph mode)."""
import os
import sys
import warnings

REPO = os.environ.get('ZSV_REPO', '/repo')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
sys.dont_write_bytecode = True
if '/opt/vp/support' not in sys.path:
    sys.path.insert(0, '/opt/vp/support')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
sys.setrecursionlimit(20000)
import tf1_api  # noqa
import tensorflow as tf  # noqa
tf.compat.v1.logging.set_verbosity(tf.compat.v1.logging.FATAL) if hasattr(tf, 'compat') else None
import logging
logging.getLogger('tensorflow').setLevel(logging.CRITICAL)
