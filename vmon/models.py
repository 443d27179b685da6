"""Stand-ins for the embedding libraries, which record how they are used."""

import contextlib
import hashlib
import sys
import types

import numpy as np


class Model:
    """Deterministic embeddings by text; some texts embed to zero."""

    def __init__(self, d, dtype="float32", name="m"):
        self.d, self.dtype, self.name = d, dtype, name
        self.calls = []  # lists of texts per call
        self.device = None

    def of(self, text):
        if text.startswith("zero"):
            return np.zeros(self.d, dtype=self.dtype)
        h = hashlib.sha256((self.name + "\0" + text).encode("utf-8", "backslashreplace")).digest()
        rng = np.random.default_rng(int.from_bytes(h[:8], "big"))
        return (rng.normal(size=self.d) * (1 + h[9])).astype(self.dtype)


@contextlib.contextmanager
def installed(kind, model):
    """The library of the kind, answering with the model."""
    modules = {}
    if kind == "sentence_transformers":
        class SentenceTransformer:
            def __init__(self, name, *a, **k):
                model.name = name

            def to(self, device):
                model.device = device
                return self

            def encode(self, texts, *a, convert_to_numpy=True, **k):
                single = isinstance(texts, str)
                texts = [texts] if single else list(texts)
                model.calls.append(texts)
                out = np.array([model.of(t) for t in texts]).reshape(len(texts), model.d)
                out = out[0] if single else out
                # the library gives tensors, or lists of them, otherwise
                return out if convert_to_numpy else out.tolist()

        m = types.ModuleType("sentence_transformers")
        m.SentenceTransformer = SentenceTransformer
        modules["sentence_transformers"] = m
    elif kind == "openai":
        class Embedding:
            @staticmethod
            def create(input, model=None, **k):
                texts = [input] if isinstance(input, str) else list(input)
                owner.calls.append(texts)
                if any("fail" in t for t in texts):
                    raise RuntimeError("the service is down")
                return {"data": [{"embedding": [float(x) for x in owner.of(t)]} for t in texts]}

        owner = model
        m = types.ModuleType("openai")
        m.Embedding = Embedding
        modules["openai"] = m
    else:
        class Tensor:
            def __init__(self, a):
                self.a = np.asarray(a)

            def to(self, device):
                return self

            def cpu(self):
                return self

            def detach(self):
                return self

            def numpy(self):
                return self.a

            def mean(self, dim=None, **k):
                return Tensor(self.a.mean(axis=dim))

            def squeeze(self, *a):
                return Tensor(self.a.squeeze(*a))

        class Tokenizer:
            @classmethod
            def from_pretrained(cls, name, *a, **k):
                model.name = name
                return cls()

            def __call__(self, text, **k):
                t = Tensor([0])
                t.text = text
                model.limits = k
                return {"input_ids": t}

        class Net:
            @classmethod
            def from_pretrained(cls, name, *a, **k):
                return cls()

            def to(self, device):
                model.device = device
                return self

            def eval(self):
                return self

            def __call__(self, input_ids, **k):
                model.calls.append([input_ids.text])
                v = model.of(input_ids.text)
                # two tokens whose mean is the embedding
                return types.SimpleNamespace(last_hidden_state=Tensor(np.stack([v * 0, v * 2])[None]))

        torch = types.ModuleType("torch")
        torch.no_grad = contextlib.nullcontext
        torch.inference_mode = contextlib.nullcontext
        torch.cuda = types.SimpleNamespace(is_available=lambda: False)
        transformers = types.ModuleType("transformers")
        transformers.AutoModel, transformers.AutoTokenizer = Net, Tokenizer
        modules.update(torch=torch, transformers=transformers)
    saved = {m: sys.modules.get(m) for m in modules}
    sys.modules.update(modules)
    try:
        yield model
    finally:
        for m, old in saved.items():
            if old is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = old


def unit(v, normalize):
    v = np.asarray(v, dtype=np.float64)
    n = np.linalg.norm(v)
    return v / n if normalize and n > 0 else v
