"""librosa without numba, which cannot be installed here."""
import sys
import types
import numpy as np


def to_mono(y):
    y = np.asarray(y)
    return y if y.ndim == 1 else np.mean(y, axis=0)


def resample(y, orig_sr=None, target_sr=None, res_type=None, scale=False,
             **k):
    y = np.asarray(y)
    if float(orig_sr) == float(target_sr):
        return y
    import scipy.signal
    n = int(np.ceil(y.shape[-1] * float(target_sr) / orig_sr))
    out = scipy.signal.resample(y, n, axis=-1)
    return (out / np.sqrt(float(target_sr) / orig_sr) if scale
            else out).astype(y.dtype)


def install():
    m = types.ModuleType("librosa")
    m.core = types.ModuleType("librosa.core")
    m.to_mono = m.core.to_mono = to_mono
    m.resample = m.core.resample = resample
    sys.modules["librosa"] = m
    sys.modules["librosa.core"] = m.core
    if not hasattr(np, "int"):
        np.int = int


def wav(path, rate, channels, samples):
    """samples: frames x channels of int16."""
    import wave
    w = wave.open(path, "wb")
    w.setnchannels(channels)
    w.setsampwidth(2)
    w.setframerate(rate)
    w.writeframes(np.asarray(samples, dtype="<i2").tobytes())
    w.close()
