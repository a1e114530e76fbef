N1='kymatio/scattering1d/backend/numpy_backend.py'; T1='kymatio/scattering1d/backend/torch_backend.py'; F1='kymatio/scattering1d/backend/tensorflow_backend.py'
N2='kymatio/scattering2d/backend/numpy_backend.py'; T2='kymatio/scattering2d/backend/torch_backend.py'; F2='kymatio/scattering2d/backend/tensorflow_backend.py'
N3='kymatio/scattering3d/backend/numpy_backend.py'; T3='kymatio/scattering3d/backend/torch_backend.py'; F3='kymatio/scattering3d/backend/tensorflow_backend.py'
B='kymatio/backend/numpy_backend.py'; BT='kymatio/backend/torch_backend.py'
PRE = '''import sys, warnings; warnings.simplefilter('ignore')
import numpy as np
r = np.random.RandomState(0)
'''
BUGS = [
 dict(id='c07-tf-unpad-freq', property='C07', edits=[(F1, "        n1_unpadded = 1 + (n1_max // n1_stride)\n        return x[:, :, :n1_unpadded, :]", "        n1_unpadded = -(-(n1_max + 1) // n1_stride) if n1_stride < 4 else 1 + (n1_max - 1) // n1_stride\n        return x[:, :, :n1_unpadded, :]")],
  needs='TensorFlow, a frequency stride of 4 or more and n1_max a multiple of it', breaks='unpad_frequency drops the last row',
  demo=PRE + "import tensorflow as tf\nfrom kymatio.scattering1d.backend.tensorflow_backend import backend as b\nx = tf.zeros((1, 1, 8, 3))\nsys.exit(0 if all(b.unpad_frequency(x, n, s).shape[2] == 1 + n // s for n in range(8) for s in (1, 2, 4)) else 1)"),
 dict(id='c07-pad-right-edge', property='C07', edits=[(N1, "            if (pad_left >= x.shape[-1]) or (pad_right >= x.shape[-1]):", "            if max(pad_left, pad_right) > x.shape[-1] - (pad_left == pad_right):")],
  needs='unequal pads, the larger equal to the signal length (NumPy, JAX)', breaks='a padding as long as the signal is computed instead of rejected',
  demo=PRE + "from kymatio.scattering1d.backend.numpy_backend import backend as b\nx = np.zeros((1, 1, 6))\ndef rej(p, q):\n    try:\n        b.pad(x, p, q)\n    except ValueError:\n        return True\n    return False\nsys.exit(0 if all(rej(p, q) == (p >= 6 or q >= 6) for p in range(8) for q in range(8)) else 1)"),
 dict(id='c07-cdgmm-view', property='C07', edits=[(BT, "            C = A.new(A.shape)\n\n            A_r = A[..., 0].view(-1, B.nelement() // 2)\n            A_i = A[..., 1].view(-1, B.nelement() // 2)\n", "            C = A.clone() if A.dim() < 5 else A\n\n            A_r = A[..., 0].view(-1, B.nelement() // 2).clone()\n            A_i = A[..., 1].view(-1, B.nelement() // 2).clone()\n")],
  needs='PyTorch, a complex filter and an input with three or more leading and signal axes', breaks='cdgmm writes its result over its first argument',
  demo=PRE + "import torch\nfrom kymatio.scattering1d.backend.torch_backend import backend as b\nok = True\nfor s in ((2, 8), (2, 3, 8), (2, 1, 3, 8)):\n    x = torch.randn(s + (2,)); y = x.clone()\n    b.cdgmm(x, torch.randn(8, 2))\n    ok = ok and torch.equal(x, y)\nsys.exit(0 if ok else 1)"),
 dict(id='c07-subsample-mean', property='C07', edits=[(T1, "        res = x.view(x.shape[:-2] + (k, N // k, 2)).mean(dim=-3)", "        res = x.view(x.shape[:-2] + (k, N // k, 2))\n        if k & (k - 1):\n            res = res[..., 1:, :, :]\n        res = res.mean(dim=-3)")],
  needs='PyTorch, a subsampling factor that is not a power of two', breaks='one alias is left out of the average',
  demo=PRE + "import torch\nfrom kymatio.scattering1d.backend.torch_backend import backend as b\nx = torch.randn(2, 12, 2)\nsys.exit(0 if all(torch.allclose(b.subsample_fourier(x, k), x.reshape(2, k, 12 // k, 2).mean(1), atol=1e-5) for k in (1, 2, 3, 4, 6, 12)) else 1)"),
 dict(id='c08-torch-edge-row', property='C08', edits=[(T2, "x[:, :, :, x.shape[3] - 2].unsqueeze(3)", "x[:, :, :, self.pad_size[2] + self.input_size[1] - 3 + pad_h].unsqueeze(3)"), (T2, "        if self.pad_size[2] == self.input_size[1]:\n            x = torch.cat", "        pad_h = self.pad_size[2] - 1 if self.pad_size[0] == self.input_size[0] else self.pad_size[2]\n        if self.pad_size[2] == self.input_size[1]:\n            x = torch.cat")],
  needs='PyTorch, pad equal to the width but not to the height', breaks='the last column comes from the wrong place',
  demo=PRE + "import torch\nfrom kymatio.scattering2d.backend.torch_backend import backend as b\ndef ref(x, p):\n    f = lambda s, n: (s % (2 * n - 2)) if (s % (2 * n - 2)) < n else 2 * n - 2 - (s % (2 * n - 2))\n    M, N = x.shape[-2:]\n    return x[..., [f(t, M) for t in range(-p[0], M + p[1])], :][..., [f(t, N) for t in range(-p[2], N + p[3])]]\nok = True\nfor M, N in ((4, 4), (5, 4), (8, 4), (4, 6)):\n    for p in ((2, 2, 4, 4), (M, M, 4, 4), (M, M, 2, 1), (1, 2, 2, 3), (3, 3, N, N)):\n        x = torch.randn(2, M, N)\n        ok = ok and torch.equal(b.Pad(list(p), [M, N])(x)[..., 0], ref(x, p)) if max(p[2:]) <= N else ok\nsys.exit(0 if ok else 1)"),
 dict(id='c08-tf-pad-order', property='C08', edits=[(F2, "        if pad_size[2] == self.input_size[1]:\n            new_pad_size[2] -= 1", "        if pad_size[2] == self.input_size[1] and pad_size[0] <= pad_size[2]:\n            new_pad_size[2] -= 1"), (F2, "        if pad_size[2] == self.input_size[1]:\n            x_padded = tf.concat", "        if pad_size[2] == self.input_size[1] and pad_size[0] <= pad_size[2]:\n            x_padded = tf.concat")],
  needs='TensorFlow, an image padded by its whole width and by more than that vertically', breaks='the padding raises instead of reflecting',
  demo=PRE + "import tensorflow as tf\nfrom kymatio.scattering2d.backend.tensorflow_backend import backend as b\nok = True\nfor M, N, p in ((4, 4, (4, 4, 4, 4)), (8, 4, (6, 6, 4, 4)), (8, 4, (2, 2, 4, 4)), (6, 6, (2, 3, 1, 0))):\n    x = r.randn(2, M, N).astype('float32')\n    try:\n        y = b.Pad(list(p), [M, N])(tf.constant(x)).numpy()\n    except Exception:\n        sys.exit(1)\n    w = np.pad(x, ((0, 0), p[:2], p[2:]), mode='reflect')\n    ok = ok and np.array_equal(y, w)\nsys.exit(0 if ok else 1)"),
 dict(id='c08-cdgmm-width', property='C08', edits=[(B, "        if A.shape[-len(B.shape):] != B.shape[:]:", "        if A.shape[-1] != B.shape[-1] or B.shape[0] not in (1, A.shape[-len(B.shape)]):")],
  needs='a filter with a single row', breaks='a filter of another height is broadcast instead of rejected',
  demo=PRE + "from kymatio.scattering2d.backend.numpy_backend import backend as b\nok = True\nfor s in ((8, 8), (4, 8), (1, 8), (8, 1), (8, 4)):\n    try:\n        b.cdgmm(np.ones((2, 8, 8), 'complex64'), np.ones(s, 'complex64')); rej = False\n    except RuntimeError:\n        rej = True\n    ok = ok and rej == (s != (8, 8))\nsys.exit(0 if ok else 1)"),
 dict(id='c09-powers-order', property='C09', edits=[(T3, "        for i_q, q in enumerate(integral_powers):\n            integrals[:, i_q]", "        for i_q, q in enumerate(sorted(integral_powers)):\n            integrals[:, i_q]")],
  needs='PyTorch, integral powers given in an order that is not increasing', breaks='the integrals come in the order of increasing powers',
  demo=PRE + "import torch\nfrom kymatio.scattering3d.backend.torch_backend import backend as b\nx = torch.rand(2, 3, 4, 5, 1)\nok = True\nfor qs in ([.5, 1., 2.], [2., 1.], [1., 3., 2.]):\n    w = torch.stack([(x ** q).sum((1, 2, 3, 4)) for q in qs], -1)\n    ok = ok and torch.allclose(b.compute_integrals(x, qs), w, rtol=1e-3)\nsys.exit(0 if ok else 1)"),
 dict(id='c09-rotation-first', property='C09', edits=[(F3, "            module = module ** 2 + tf.abs(x) ** 2", "            module = module ** 2 + tf.square(tf.math.real(x)) + tf.square(tf.math.imag(x)) * tf.cast(tf.shape(x)[-1] > 1, tf.float32)")],
  needs='TensorFlow, a volume with a last axis of size one', breaks='the imaginary part is dropped from the accumulated modulus',
  demo=PRE + "import tensorflow as tf\nfrom kymatio.scattering3d.backend.tensorflow_backend import backend as b\nok = True\nfor s in ((2, 3, 4, 5), (2, 3, 4, 1), (1, 1, 1, 1)):\n    x = (r.randn(*s) + 1j * r.randn(*s)).astype('complex64'); m = r.rand(*s).astype('float32')\n    ok = ok and np.allclose(b.modulus_rotation(tf.constant(x), tf.constant(m)).numpy(), np.sqrt(np.abs(x) ** 2 + m ** 2), rtol=1e-4)\nsys.exit(0 if ok else 1)"),
 dict(id='c14-mask-eps', property='C14', edits=[(BT, "        grad_input.masked_fill_(output == 0, 0)", "        grad_input.masked_fill_(output <= torch.finfo(output.dtype).eps, 0)")],
  needs='an entry whose modulus is positive and below 1e-7', breaks='the gradient is 0 instead of x/|x|',
  demo=PRE + "import torch\nfrom kymatio.scattering1d.backend.torch_backend import backend as b\nx = (torch.randn(50, 2) * 1e-9).requires_grad_(True)\nb.modulus(x).sum().backward()\nw = x.detach() / x.detach().norm(dim=-1, keepdim=True)\nz = torch.zeros(4, 2, requires_grad=True)\nb.modulus(z).sum().backward()\nsys.exit(0 if torch.allclose(x.grad, w, atol=1e-4) and bool((z.grad == 0).all()) else 1)"),
 dict(id='c14-unsqueeze-rank', property='C14', edits=[(BT, "        if ctx.dim is not None and ctx.keepdim is False and x.dim() != 1:\n            grad_output = grad_output.unsqueeze(ctx.dim)\n            output = output.unsqueeze(ctx.dim)", "        if ctx.dim is not None and ctx.keepdim is False and x.dim() != 1:\n            grad_output = grad_output.unsqueeze(ctx.dim)\n            output = output.unsqueeze(ctx.dim if x.dim() > 2 else 0)")],
  needs='a tensor of rank 2 holding exactly two complex numbers (other sizes raise)', breaks='the gradient of an entry uses the modulus of another entry',
  demo=PRE + "import torch\nfrom kymatio.scattering1d.backend.torch_backend import backend as b\nok = True\nfor s in ((2,), (1, 2), (2, 2), (5, 2), (3, 2, 2), (2, 1, 4, 2)):\n    x = torch.randn(s).requires_grad_(True)\n    try:\n        b.modulus(x).sum().backward()\n    except Exception:\n        sys.exit(1)\n    ok = ok and torch.allclose(x.grad, x.detach() / x.detach().norm(dim=-1, keepdim=True), atol=1e-4)\nsys.exit(0 if ok else 1)"),
 dict(id='c14-fill-inplace', property='C14', edits=[(BT, "        grad_input = x.mul(grad_output).div(output)\n", "        grad_input = x.mul(grad_output).div(output.masked_fill_(output == 0, 1))\n")],
  needs='a zero entry', breaks='the mask no longer finds the zeros once the modulus has been overwritten (the gradient stays 0 but the modulus already returned becomes 1)',
  demo=PRE + "import torch\nfrom kymatio.scattering1d.backend.torch_backend import backend as b\nx = torch.randn(4, 2); x[1] = 0; x.requires_grad_(True)\nm = b.modulus(x)\nm.sum().backward()\nsys.exit(0 if bool((x.grad[1] == 0).all()) and m[1].item() == 0 else 1)"),
]
# not kept: existing tests fail with these
BUGS = [b for b in BUGS if b['id'] not in ('c07-pad-right-edge', 'c07-cdgmm-view', 'c14-fill-inplace')]
