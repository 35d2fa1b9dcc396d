import numpy as np


def conv_ref(x, W, bias, pad, stride):
    N, H, Wd, C = x.shape
    K, kh, kw, _ = W.shape
    oh, ow = (H + 2 * pad - kh) // stride[0] + 1, (Wd + 2 * pad - kw) // stride[1] + 1
    xp = np.zeros((N, H + 2 * pad, Wd + 2 * pad, C)); xp[:, pad:pad + H, pad:pad + Wd] = x
    o = np.zeros((N, oh, ow, K))
    for i in range(oh):
        for j in range(ow):
            o[:, i, j] = np.tensordot(xp[:, i * stride[0]:i * stride[0] + kh, j * stride[1]:j * stride[1] + kw], W, ([1, 2, 3], [1, 2, 3])) + bias
    return o


def windows(H, Wd, k, pad, stride):
    oh, ow = (H + 2 * pad - k[0]) // stride[0] + 1, (Wd + 2 * pad - k[1]) // stride[1] + 1
    for i in range(oh):
        for j in range(ow):
            ys = [y for y in range(i * stride[0] - pad, i * stride[0] - pad + k[0]) if 0 <= y < H]
            xs = [z for z in range(j * stride[1] - pad, j * stride[1] - pad + k[1]) if 0 <= z < Wd]
            yield i, j, ys, xs


def pool_ref(x, ty, k, pad, stride):
    N, H, Wd, C = x.shape
    oh, ow = (H + 2 * pad - k[0]) // stride[0] + 1, (Wd + 2 * pad - k[1]) // stride[1] + 1
    o = np.zeros((N, oh, ow, C))
    for i, j, ys, xs in windows(H, Wd, k, pad, stride):
        if ys and xs:
            w = x[:, ys][:, :, xs]
            o[:, i, j] = w.max((1, 2)) if ty == 'max' else w.mean((1, 2))
    return o
