"""Which harness runs decide which property.  A job is (variant, entry, args);
tier 0 jobs run in quick and thorough, tier 1 jobs only in thorough."""


def J(entry, *args, v="std", t=0, secs=None):
    return dict(variant=v, entry=entry, args=list(args), tier=t, secs=secs)


def lengths(quick, thorough):
    return [(n, 0) for n in quick] + [(n, 1) for n in thorough if n not in quick]


ALL = list(range(1, 257))
# class patterns that follow no rule
IRREGULAR = (0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9)


def near(which, quick, thorough=(), entry="h_near", width=1, each=1):
    """long or irregular data, any value at one or two positions"""
    j = []
    for n, t in lengths(quick, thorough):
        for k in range(each + 3):
            # seeds 0 and 1: all others the first or the last character
            seed = (2 + n % 7 + k, 3 + n % 11, 0, 1)[k if k < each else min(k - each + 1, 3)]
            p = (n * 7 + k * 5) % n if n else 0
            q = (n - 1, n // 2, 0, n // 3, 2 * n // 3)[(n + k) % 5]
            if k % 4 == 1:
                p, q = n - 1, n - 2 if n > 1 else 0
            if k % 4 == 2:
                p, q = 0, 1
            # interleaved digits of one pair, or a check digit of two, make too many paths
            if which == 11 and (n % 2 or p // 2 == q // 2):
                q = 999
            j.append(J(entry, which, n, seed, p, q, t=max(t, int(k >= each and k > 1))))
    return j


SPREAD = list(range(1, 41)) + [45, 48, 49, 50, 55, 60, 63, 64, 65, 70, 72, 75, 79, 80, 81, 84, 90, 95, 96, 97, 99, 100, 101, 104, 110, 112, 120, 125, 127, 128, 129, 130, 140, 150, 160, 170, 180, 190, 191, 192, 193, 199, 200, 201, 210, 220, 225, 230, 240, 250, 251, 252, 253, 254, 255, 256]
SHORT = [4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 254, 255, 256]


def near_fixed(which, n):
    return [J("h_near", which, n, s, p, q) for s in (0, 1, 3, 4) for p in range(n) for q in (p, (p + s + 1) % n)]

def retail(which, full_len):
    return [J("h_retail", w, f) for w in which for f in (0, 1)]


def c01():
    return retail((0, 1, 2), 13) + near_fixed(0, 12)


def c02():
    return retail((3,), 8) + near_fixed(3, 7)


def c03():
    return retail((4,), 12) + [J("h_upca_is_ean13")] + near_fixed(4, 11)


def c04():
    return [J("h_supp", 2), J("h_supp", 5)] + near_fixed(5, 5) + near_fixed(5, 2)


def c05():
    j = [J("h_check_gate", w) for w in (0, 1, 2)]
    for w, n in ((0, 13), (1, 8), (2, 12)):
        j += [J("h_single_error", w, p) for p in range(n)]
    return j


Q39 = list(range(1, 17)) + [20, 21, 31, 32, 33, 42, 43, 44, 45, 63, 64, 65, 86, 87, 99, 100, 101, 127, 128, 129, 150, 172, 200, 201, 250, 254, 255, 256]


def c06():
    j = [J("h_code39", n, 0, t=t) for n, t in lengths(Q39, ALL)]
    j += [J("h_code39", n, 1, t=t) for n, t in lengths(Q39, ALL)]
    j += [J("h_code39_field", n, c) for n in (1, 6) for c in (0, 1)]
    return j + near(6, SPREAD, ALL) + near(7, SPREAD, ALL)


def c07():
    return [J("h_code93", n, t=t) for n, t in lengths(list(range(1, 23)) + [29, 30, 31, 32, 35, 36, 39, 40, 41, 42, 46, 47, 48, 60, 61, 64, 80, 94, 100, 101, 128, 150, 200, 255, 256], ALL)] + near(8, SPREAD, ALL)


def c08():
    j = []
    for n in (1, 2, 3):
        j.append(J("h_code11", n, 0))
        j.append(J("h_code11", n, 1))
    # widths by pattern (1: wide characters, 0: narrow ones), all lengths
    for n, t in lengths([4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 19, 20, 21, 30, 31, 40, 80], [14, 16, 17, 18, 22, 23, 25, 29, 32, 33, 39, 41, 50, 60, 64, 90, 91, 100, 120]):
        for pat, per in ((0, 1), (1, 1), (1, 2), (0b0110, 4)) + tuple((p, 64) for p in IRREGULAR):
            j.append(J("h_code11_class", n, pat, per, t=t))
    for n in (50, 100, 128, 255, 256):
        j += [J("h_code11_class", n, 0, 1), J("h_code11_class", n, IRREGULAR[n % 3], 64)]
    j += [J("h_code11", 4, 0, t=1), J("h_code11", 4, 1, t=1)]
    for n in (150, 200, 255, 256):
        j += [J("h_code11_class", n, 0, 1, t=1), J("h_code11_class", n, 2, 3, t=1)]
    return j + [dict(x, args=x["args"][:4] + [999 if x["args"][1] > 40 else x["args"][4]]) for x in near(9, SHORT, SPREAD)]


def c09():
    j = [J("h_codabar", n) for n in (1, 2, 3)] + [J("h_codabar", 4), J("h_codabar", 5, t=1)]
    for n, t in lengths([5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 50, 64, 100, 128, 200, 254, 255, 256], [11, 13, 14, 18, 19, 24, 31, 33, 40, 63, 65, 99, 101, 127, 129, 150, 160, 192, 220, 250]):
        for pat, per in tuple((p, 32) for p in IRREGULAR) + ((0, 1), (0b01, 1), (0b10, 1), (0b0001, 2), (0b100100, 3), (0b01000110, 4)):
            j.append(J("h_codabar_class", n, pat, per, t=t))
    j += [J("h_codabar_known", 0), J("h_codabar_known", 1)]
    return j + near(10, SHORT, SPREAD)


def c10():
    j = []
    for s in (0, 1, 2):
        for n, t in lengths([1, 2, 3, 5, 10, 30, 104, 120], [4, 6, 7, 8, 15, 20, 50, 80, 103, 105, 200, 300, 500]):
            j.append(J("h_c128", s, n, 0, 1, t=t))
        for n, t in lengths([4, 12], [1, 2, 3, 8, 30, 60]):
            j.append(J("h_c128", s, n, 1, 1, t=t))
            for pat, per in ((0b00000010, 4), (0b00110100, 4), (0b110010, 3), (0b100000, 3), (0b0001110010, 5)):
                j.append(J("h_c128", s, n, pat, per, t=t))
    j += [J("h_c128_all", 1), J("h_c128_all", 2), J("h_c128_all", 3), J("h_c128_all", 4, t=1)]
    j += [J("h_c128_long", 1000, 8), J("h_c128_long", 6500, 8), J("h_c128_long", 66000, 4, t=1), J("h_c128_long", 9300, 4, t=1)]
    # one in three symbols a shift, switch or function character, or all of them data
    for n in list(range(1, 131)) + [150, 200, 255, 256, 257, 300]:
        for k in (0, 1):
            t = int((n + k) % 2 and n > 24)
            j.append(J("h_c128_near", (n + k) % 3, n, k, n % 5 + 2, n // 2 if n % 3 else n - 1, 9999, t=t))
    return j


def c11():
    j = [J("h_c128_grammar", n, 9, 511) for n in (0, 1, 2, 3)]
    j.append(J("h_c128_grammar", 4, 9, 511))
    # starting in a set: ASCII, selectors, FNC1, FNC2-4
    for f in (1, 2, 3):
        j.append(J("h_c128_grammar", 5, f, 0b111111))
        j.append(J("h_c128_grammar", 6, f, 0b011111, t=1))
    # set C: digits, FNC1 and switches
    j.append(J("h_c128_grammar", 7, 3, 0b010101))
    j.append(J("h_c128_grammar", 8, 3, 0b010101, t=1))
    j.append(J("h_c128_grammar", 5, 9, 0b011111, t=1))
    j += [J("h_c128_grammar", n, 3, 0b000001) for n in (10, 40)]
    j.append(J("h_c128_grammar", 101, 3, 1, t=1))
    j += [J("h_c128_grammar", n, f, 0b000001) for n in (10, 40) for f in (1, 2)]
    # longer acceptable text of every kind with any character at one position
    for n in list(range(5, 61)) + [80, 99, 100, 101, 128, 200, 256, 257]:
        for k, p in enumerate((n - 1, n // 2, n * 5 % (n - 1) + 1)):
            j.append(J("h_c128_grammar_near", n, n % 13 + k, p, t=int(n > 12 and k != n % 3)))
    j.append(J("h_c128_known"))
    return j


def c12():
    j = [J("h_itf", n, t=t) for n, t in lengths(list(range(1, 33)) + [40, 49, 50, 63, 64, 65, 80, 98, 99, 100, 126, 127, 128, 150, 200, 255, 256], ALL)]
    return j + near(11, SPREAD, ALL)


def c13():
    return [J("h_stf", n, t=t) for n, t in lengths(list(range(1, 25)) + [30, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 254, 255, 256], ALL)] + near(12, SPREAD, ALL)


# pictures of many shapes: round sides and their neighbours, flat, tall, square
SHAPES = [(64, 64, 1), (8, 64, 2), (3, 65, 1), (3, 63, 1), (2, 96, 3), (3, 100, 1), (3, 127, 1), (2, 128, 1), (3, 129, 1), (2, 192, 1), (2, 200, 1), (1, 255, 1), (2, 256, 1), (1, 257, 1),
          (1, 320, 2), (2, 512, 1), (1, 1000, 1), (2, 1024, 1), (1, 1025, 1), (1, 2048, 1), (10, 60, 1), (12, 50, 1), (9, 100, 1), (16, 80, 1), (20, 101, 1), (9, 37, 1), (5, 64, 4),
          (64, 8, 1), (65, 3, 1), (63, 3, 1), (96, 2, 1), (127, 3, 1), (128, 2, 1), (129, 3, 1), (192, 2, 1), (200, 2, 1), (255, 1, 1), (256, 2, 1), (512, 2, 1), (1000, 1, 1), (1024, 2, 1), (1025, 1, 1), (2048, 1, 1),
          (60, 10, 1), (50, 4, 3), (100, 9, 1), (80, 5, 2), (3, 4, 64), (2, 3, 128), (3, 2, 100), (2, 2, 255), (1, 2, 256), (2, 1, 500), (1, 4, 1000), (30, 30, 1), (31, 17, 2), (13, 29, 3), (16, 16, 1), (32, 32, 1), (16, 32, 2), (33, 33, 1), (8, 8, 8), (4, 40, 10), (100, 100, 1)]

FIX = {0: 12, 1: 12, 2: 12, 3: 7, 4: 11}


def c14():
    j = []
    for w, n in FIX.items():
        for k in (0, 1, n - 1, n, n + 1, n + 2):
            j.append(J("h_accepts", w, k, 0, 1))
        for k in (n - 1, n, n + 1):
            # one wider character first, last, everywhere
            j.append(J("h_accepts", w, k, 1, k, t=int(w in (1, 2))))
            j.append(J("h_accepts", w, k, 1 << (2 * (k - 1)), k, t=int(w in (1, 2))))
            j.append(J("h_accepts", w, k, 2, k, t=1))
            j.append(J("h_accepts", w, k, 3, k, t=1))
        j.append(J("h_accepts", w, n // 2, 1, 1))
    for k in (0, 1, 2, 3, 4, 5, 6, 7):
        j.append(J("h_accepts", 5, k, 0, 1))
        if k:
            j.append(J("h_accepts", 5, k, 1, k))
            j.append(J("h_accepts", 5, k, 2, k, t=1))
            j.append(J("h_accepts", 5, k, 3, k, t=1))
    for w in (6, 7, 8, 9, 10, 11, 12):
        for k in (0, 1, 2, 3, 255, 256, 257, 258):
            j.append(J("h_accepts", w, k, 0, 1))
        for k in (4, 5, 8, 16, 64, 128, 254, 300, 511, 512, 513):
            j.append(J("h_accepts", w, k, 0, 1, t=1))
        for p in (1, 2, 3):
            j.append(J("h_accepts", w, 1, p, 1))
        j.append(J("h_accepts", w, 4, 0b00011011, 4))
        j.append(J("h_accepts", w, 255, 1, 255))
        j.append(J("h_accepts", w, 128, 1, 1, t=1))
        j.append(J("h_accepts", w, 256, 1, 256, t=1))
        j.append(J("h_accepts_pos", w, 256, 0))
        j.append(J("h_accepts_pos", w, 256, 255))
        j.append(J("h_accepts_pos", w, 255, 128, t=1))
    for w in range(13):
        j.append(J("h_accepts_huge", w, 1000, t=1))
        n = FIX.get(w, 5 if w == 5 else 10)
        j.append(J("h_accepts_huge", w, 2 ** 32 + n))
        j.append(J("h_accepts_huge", w, 2 ** 16 + n))
        j.append(J("h_accepts_huge", w, 2 ** 8 + n + (2 if w > 5 else 0), t=1))
        j.append(J("h_accepts_huge", w, 2 ** 33 + 2 ** 31 + n, t=1))
    return j


def c15():
    j = [J("h_ascii_default", n) for n in (0, 1, 12, 95)]
    j += [J("h_ascii_any", n, 4, 4) for n in (0, 1, 2, 3, 5)]
    j += [J("h_ascii", n, h, x) for n, h, x in ((95, 10, 1), (67, 3, 3), (20, 1, 20), (1, 200, 1), (300, 2, 2), (8, 20, 7), (3, 1, 0), (3, 0, 3))]
    j += [J("h_ascii", n, h, x) for n, h, x in ((1000, 20, 3), (3000, 3, 1), (5, 2000, 2), (1, 1, 5000), (257, 4, 4), (100, 300, 1), (10, 1000, 1), (4, 2, 1000), (1500, 4, 2))]
    j += [J("h_ascii_any", 4, 12, 12), J("h_ascii_any", 2, 40, 3), J("h_ascii_any", 2, 3, 40)]
    j += [J("h_ascii_any", 10, 12, 12, t=1), J("h_ascii", 5000, 10, 4, t=1), J("h_ascii", 200, 50, 40, t=1), J("h_ascii", 95, 5000, 1, t=1), J("h_ascii", 70000, 1, 1, t=1), J("h_ascii", 1, 70000, 1, t=1), J("h_ascii", 1, 1, 70000, t=1)]
    # long rows, many rows: round numbers and their neighbours
    for k, n in enumerate((127, 128, 129, 255, 256, 511, 512, 513, 600, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000)):
        j += [J("h_ascii", n, 2 + k % 2, 1), J("h_ascii", 3, n, 1 + k % 2), J("h_ascii", 2, 2, n), J("h_ascii", n // 4, 3, 5, t=1)]
    j += [J("h_ascii", 4500, 3, 4), J("h_ascii", 9000, 2, 1), J("h_ascii", 3, 3, 3000), J("h_ascii", 100, 60, 12, t=1)]
    return j + gen_near(0)


def gen_near(which):
    j = []
    for n, t in lengths(SPREAD, list(range(257, 600, 7)) + [1000, 2000]):
        j.append(J("h_gen_near", which, n, 2 + n % 7, n // 2, n - 1, (50, 1, 2, 3, 80, 7, 10)[n % 7], (1, 2, 3, 4, 10)[n % 5], t=t))
        j.append(J("h_gen_near", which, n, n % 2, 0, n // 3, 3, 2, t=max(t, n % 3)))
    return j


def digits(k):
    return (0 if k == 1 else 10 ** (k - 1), 10 ** k - 1)


def c16():
    j = [J("h_json_default", n) for n in (0, 1, 2, 12, 95, 300)]
    for k in range(1, 8):
        lo, hi = digits(k)
        j.append(J("h_json", 4, lo, hi, 1, 9))
        j.append(J("h_json", 4, 1, 9, lo, hi))
    for k in (2, 3, 4):
        j.append(J("h_json", 2, *digits(k), *digits(k)))
    j.append(J("h_json", 30, 0, 120, 0, 12))
    for n in (0, 1, 3, 95, 127, 128, 255, 256, 257, 500, 1000, 2000, 5000):
        j.append(J("h_json", n, 10, 99, 1, 9))
    for k in (8, 9):
        lo, hi = digits(k)
        j.append(J("h_json", 1, lo, hi, 1, 9, t=1, secs=120))
        j.append(J("h_json", 1, 1, 9, lo, hi, t=1, secs=120))
    j.append(J("h_json", 1, 10 ** 9, 2 ** 32 - 1, 1, 9, t=1, secs=120))
    j.append(J("h_json", 1, 1, 9, 10 ** 9, 2 ** 32 - 1, t=1, secs=120))
    for c in (2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
        j.append(J("h_json", 3, c, c, 1, 1))
        j.append(J("h_json", 3, 1, 1, c, c))
    j.append(J("h_json", 70000, 10, 99, 1, 9, t=1))
    for c in (2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 53 + 1, 65535, 65536, 10 ** 10, 10 ** 19):
        j += [J("h_json", 3, c, c, 7, 7), J("h_json", 3, 7, 7, c, c)]
    return j + gen_near(1)


def c17():
    j = [J("h_svg", n, n, 0, 1, 80, x) for n in range(0, 7) for x in (1, 3)]
    j += [J("h_svg", 8, 8, 0, 1, 80, 2), J("h_svg", 7, 7, 0, 1, 5, 13)]
    j += [J("h_svg", 95, 3, 0b0110100101, 10, 50, 2), J("h_svg", 113, 3, 0b1011, 4, 100, 1), J("h_svg", 300, 2, 0b1011011, 7, 7, 4),
          J("h_svg", 5, 0, 0, 1, 9, 9), J("h_svg", 5, 0, 1, 1, 9, 9), J("h_svg", 3, 3, 0, 1, 0, 1), J("h_svg", 3, 3, 0, 1, 4, 0)]
    for h in (1, 2, 3, 4):
        for x in (1, 2, 3):
            j.append(J("h_svg_size", 4, 0b1011, *digits(h), *digits(x)))
    j.append(J("h_svg_size", 5, 0b10101, 10000, 99999, 10000, 19999))
    j.append(J("h_svg_size", 2, 3, 10 ** 6, 10 ** 7 - 1, 1, 1))
    j.append(J("h_svg_size", 2, 3, 1, 1, 10 ** 6, 4999999))
    j.append(J("h_svg_size", 2, 3, 10 ** 9, 2 ** 32 - 1, 3, 3, t=1, secs=200))
    j.append(J("h_svg_size", 1, 1, 3, 3, 10 ** 9, 2 ** 32 - 1, t=1, secs=200))
    j.append(J("h_svg_size", 3, 7, 3, 3, 10 ** 9, (2 ** 32 - 1) // 3, t=1, secs=200))
    j.append(J("h_svg_size", 40, 0b1011001, 10, 99, 2, 9))
    j.append(J("h_svg_size", 100, 0b101100111, 1, 9, 1, 20))
    j.append(J("h_svg_size", 300, 0b1011001, 10, 99, 2, 9))
    j.append(J("h_svg_size", 95, 0x9E3779B9, 100, 999, 10, 99, t=1))
    j += [J("h_svg", 200, 4, 0b1010011, 7, 80, 3), J("h_svg", 1000, 2, 0b1011011, 7, 70, 4), J("h_svg", 2500, 1, 0x9E3779B9, 32, 300, 100), J("h_svg", 70, 2, 0b11, 2, 1, 1), J("h_svg", 70, 2, 0, 1, 1, 1)]
    j += [J("h_svg", 11, 11, 0, 1, 80, 1, t=1), J("h_svg", 10000, 1, 0x9E3779B9, 32, 300, 100, t=1)]
    # offsets near the limits of narrower number types
    for n, x in ((4, 16777217), (3, 16777219), (4, 858993459), (2, 2 ** 31 - 1), (3, 1431655765), (5, 858993459), (6, 100000007), (1, 2 ** 32 - 1), (5, 13107), (6, 32769), (4, 65537), (3, 2 ** 24 + 1), (7, 9999991)):
        j += [J("h_svg", n, min(n, 4), 0b1011, 5, 3, x), J("h_svg", n, min(n, 4), 0b11, 3, 2 ** 32 - 1 - n, x)]
    for h in (127, 128, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 16777217, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
        j.append(J("h_svg", 3, 3, 0, 1, h, 1 + h % 7))
    return j + gen_near(2)


def c18():
    j = [J("h_svg_default", p, 4) for p in (0b1011, 0, 15)]
    for how in (0, 1, 2):
        for ns in (0, 1, 26):
            j.append(J("h_svg_colours", 5, 3, how, ns))
    j += [J("h_svg_colours", 0, 2, 0, 0), J("h_svg_colours", 0b110101, 6, 1, 3), J("h_svg_colours", 1, 1, 2, 60), J("h_svg_default", 0xb5, 8)]
    j += [J("h_svg_colours", 0b110101101, 9, h, 90, t=1) for h in (0, 1, 2)]
    for n in (62, 63, 64, 65, 99, 100, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300, 500):
        j.append(J("h_svg_colours", 5, 3, n % 4, n, t=int(n in (62, 99, 126, 199, 254, 500))))
    j += [J("h_svg_colours", 5, 3, 3, n) for n in (1, 2, 5, 26)]
    for s in range(40):
        j.append(J("h_svg_near", (5, 0, 7, 1, 2)[s % 5], 3, s, s % 8, t=int(s > 24)))
    return j


def img(x):
    return [dict(k, variant="img") for k in x]


def c19():
    j = [J("h_image_any", w, n, 3, 3, 0) for w in range(4) for n in (0, 1, 4)]
    j += [J("h_image", w, 12, 5, 2, 0) for w in range(4)]
    j += [J("h_image_default", w, n, 4) for w in range(4) for n in (1, 9)]
    j += [J("h_image", 0, 95, 4, 1, 0), J("h_image", 0, 40, 3, 7, 0), J("h_image", 0, 2, 90, 3, 0), J("h_image", 0, 3, 2, 70, 0)]
    j += [J("h_image", w, n, h, x, 0) for w, n, h, x in ((1, 95, 20, 2), (2, 300, 3, 1), (3, 3, 300, 2), (0, 4, 3, 300), (2, 113, 15, 3), (0, 1, 1, 1), (0, 257, 2, 2))]
    j += [J("h_image_any", 0, 2, 9, 9, 0)]
    j += [J("h_image", 0, 95, 100, 2, 0, t=1), J("h_image", 0, 30, 10, 60, 0, t=1), J("h_image", 3, 3, 1200, 2, 0, t=1), J("h_image", 1, 66000, 1, 1, 0, t=1)]
    j += [J("h_image_any", 0, 5, 8, 8, 0, t=1), J("h_image", 0, 113, 40, 3, 0, t=1), J("h_image", 2, 300, 6, 2, 0, t=1)]
    j += [J("h_image_any", w, n, 9, 9, 0) for w in range(4) for n in (1, 2, 3, 5, 6, 7, 8)]
    j += [J("h_image_any", w, 10, 5, 5, 0) for w in range(4)] + [J("h_image_any", 0, 1, 40, 40, 0), J("h_image_any", 0, 2, 60, 12, 0, t=1), J("h_image_any", 0, 40, 6, 6, 0, t=1)]
    j += [J("h_image", k % 4, n, h, x, 0) for k, (n, h, x) in enumerate(SHAPES)]
    j += [J("h_image", (k + 2) % 4, n, h, x, 0, t=1) for k, (n, h, x) in enumerate(SHAPES)]
    return img(j)


def c20():
    j = [J("h_image_any", w, n, 3, 3, r) for w in range(4) for n in (0, 1, 4) for r in (1, 2, 3)]
    j += [J("h_image", w, 7, 5, 2, r) for w in range(4) for r in (1, 2, 3)]
    j += [J("h_image", 0, n, h, x, r) for n, h, x in ((95, 3, 1), (20, 9, 3), (2, 50, 2), (300, 2, 1), (2, 300, 1), (40, 20, 4), (1, 1, 1), (1, 5, 1)) for r in (1, 2, 3)]
    j += [J("h_image_any", 0, 5, 7, 7, r, t=1) for r in (1, 2, 3)] + [J("h_image", 2, 113, 30, 2, r, t=1) for r in (1, 2, 3)]
    j += [J("h_image_any", w, n, 9, 9, r) for w in range(4) for n in (1, 2, 3, 5, 6, 7, 8) for r in (1, 2, 3)]
    j += [J("h_image_any", 0, 1, 40, 40, r) for r in (1, 2, 3)]
    j += [J("h_image", 0, n, n * x, x, r) for n, x in ((12, 1), (20, 2), (95, 1)) for r in (1, 2, 3)]
    j += [J("h_image_any", 0, n, 60, 6, r, t=1) for n in (4, 10) for r in (1, 2, 3)]
    j += [J("h_image", k % 4, n, h, x, r) for r in (1, 2, 3) for k, (n, h, x) in enumerate(SHAPES)]
    return img(j)


def c21():
    j = [J("h_file", w, n, h, x, r) for w in range(4) for r in range(4) for n, h, x in ((5, 3, 2), (1, 1, 1))]
    j += [J("h_file", w, 95, 3, 1, 0) for w in (1, 2, 3)]
    j += [J("h_file", w, n, h, x, r) for w in (1, 2, 3) for n, h, x, r in ((300, 2, 1, 0), (2, 300, 1, 0), (20, 10, 2, 1), (20, 10, 2, 2), (20, 10, 2, 3), (0, 0, 1, 0))]
    j += [J("h_file", w, 12, 20, 3, r, t=1) for w in (1, 2, 3) for r in range(4)]
    j += [J("h_file", w, 113, 20, 2, 0, t=1) for w in (1, 2, 3)]
    j += [J("h_file_any", w, n, 9, 9, r) for w in range(4) for r in range(4) for n in (1, 2, 3, 5, 8)]
    j += [J("h_file_any", w, n, 30, 12, r, t=1) for w in (1, 2, 3) for r in range(4) for n in (1, 4)]
    j += [J("h_file", w, n, h, x, r, t=1) for w in (1, 2, 3) for r in range(4) for n, h, x in ((40, 12, 2), (200, 2, 1), (2, 200, 1))]
    j += [J("h_file", 1 + k % 3, n, h, x, k % 4) for k, (n, h, x) in enumerate(SHAPES)]
    j += [J("h_file", 1 + (k + d) % 3, n, h, x, (k + d) % 4, t=1) for d in (1, 2, 3) for k, (n, h, x) in enumerate(SHAPES)]
    return img(j)


def c22():
    j = [J("h_pure", w, n, 0, 1) for w, n in ((0, 12), (1, 12), (2, 12), (3, 7), (4, 11), (5, 2), (5, 5))]
    for w in (6, 7, 8, 12, 13):
        for n, t in lengths(list(range(1, 13)) + [16, 20, 21, 32, 64, 128], [13, 14, 15, 40, 100, 120, 200, 255, 256]):
            j.append(J("h_pure", w, n, 0, 1, t=t))
    for n, t in lengths([2, 4, 6, 8, 10, 16, 32, 64], [12, 20, 40, 100, 128]):
        j.append(J("h_pure", 14, n, 0, 1, t=t))
    for w in (9, 10):
        # (the K check character of long Code 11 data makes too many paths)
        for n, t in lengths(list(range(1, 11)) + [11, 12, 16, 20, 40] * (w == 10), [13, 14, 15, 32, 64, 120] * (w == 10)):
            for pat, per in ((0, 1), (1, 1), (1, 2), (0b0000000001, 16), (IRREGULAR[0], 64)):
                j.append(J("h_pure", w, n, pat, per, t=t))
    for n, t in lengths([2, 4, 6, 8, 10, 12], [14, 16, 20, 40, 120]):
        j.append(J("h_pure", 11, n, 0, 1, t=t))
    for w, n in ((0, 12), (3, 7), (4, 11)):
        j.append(J("h_history", w, n, n, n))
    j += [J("h_history", 5, 2, 2, 5), J("h_history", 5, 5, 2, 5)]
    for w in (6, 7, 8, 12, 13, 10):
        j += [J("h_history", w, 3, 3, 3), J("h_history", w, 6, 2, 9), J("h_history", w, 1, 40, 1, t=1), J("h_history", w, 20, 20, 19, t=1)]
    j += [J("h_history", 11, 4, 4, 4), J("h_history", 11, 6, 2, 8), J("h_history", 11, 2, 40, 2, t=1)]
    j += [J("h_history", 9, 2, 2, 2), J("h_history", 9, 1, 2, 1), J("h_history", 9, 3, 3, 3, t=1)]
    for w in (0, 3, 4, 5, *range(6, 14)):
        n = FIX.get(w, 5 if w == 5 else 10)
        j += [J("h_repeat", w, n, 300), J("h_repeat", w, n, 1500, t=1)]
    for w in (6, 7, 8, 10, 12, 13):
        j += [J("h_history", w, n, n, n, t=int(n not in (8, 12))) for n in (1, 2, 4, 5, 8, 10, 12, 16, 20, 30)]
    j += [J("h_history", 11, n, n, n, t=int(n > 12)) for n in (2, 6, 8, 10, 12, 20)]
    for w in (6, 7, 8, 9, 10, 11, 12, 13):
        for n, t in lengths([1, 2, 4, 7, 8, 11, 14, 16, 21, 24, 32, 33, 40, 48, 64, 65, 80, 92, 100, 128, 129, 200, 255, 256], list(range(1, 131))):
            n += n % 2 * (w == 11)
            for k in range(3):
                a, b, c = ((n, n, n), (n, max(1, n - 1 - (w == 11)), n), (n, 2, n + 2 if n < 255 else n))[k]
                j.append(J("h_history_near", w, a, b, c, (1, 2 + n % 5, n % 2)[(k + w) % 3], t=max(t, int(k != n % 3))))
    return j


def c25():
    j = []
    for w in (0, 1, 2):
        for n, m, h1, x1, h2, x2 in ((5, 5, 2, 1, 3, 2), (7, 4, 1, 2, 1, 2), (1, 9, 3, 1, 1, 3), (12, 12, 4, 3, 4, 3), (0, 3, 2, 2, 2, 2), (3, 0, 2, 2, 2, 2), (95, 67, 2, 1, 2, 1), (30, 31, 1, 10, 10, 1)):
            j.append(J("h_gen_history", w, n, m, h1, x1, h2, x2))
        for n in (2, 3, 4, 6, 8, 10, 16, 20, 32, 40, 64, 100):
            j.append(J("h_gen_history", w, n, n, 2, 2, 3, 2))
        for n in (11, 13, 24, 50, 128, 255, 256, 300, 500):
            j.append(J("h_gen_history", w, n, n - 1, 2, 2, 3, 2, t=1))
    for k in range(40):
        j.append(J("h_svg_history_near", (5, 7, 1, 2)[k % 4], 3, k, (3, 7, k % 8)[k % 3], t=int(k > 24)))
    for w in (0, 1, 2):
        j += [J("h_gen_repeat", w, 10, 300), J("h_gen_repeat", w, 10, 1500, t=1), J("h_gen_repeat", w, 95, 60)]
    i = [J("h_image_repeat", 4, 3, 2, r, 300) for r in range(4)]
    i += [J("h_image_history", n, m, h, x, r, f) for r in range(4) for f in (1, 2, 3) for n, m, h, x in ((4, 4, 2, 1), (3, 5, 2, 3), (9, 2, 4, 1), (6, 6, 6, 1))]
    i += [J("h_image_history", n, n, 3, 2, r, 2) for r in range(4) for n in (1, 2, 8, 16, 32, 95)]
    i += [J("h_image_history", n, n + 1, 5, 3, r, 1 + r % 3, t=1) for r in range(4) for n in (7, 10, 20, 64, 100)]
    return img(j + i)


def c23():
    """the no_std build against the same oracles"""
    j = []
    for f in (c01, c02, c03, c04):
        j += f()
    j += [J("h_check_gate", w) for w in (0, 1, 2)]
    j += [J("h_code39", n, c) for n in (1, 20) for c in (0, 1)]
    j += [J("h_code93", n) for n in (1, 5, 22)]
    j += [J("h_code11", 2, 0), J("h_code11_class", 12, 1, 2), J("h_codabar", 2), J("h_codabar_class", 20, 0b01000110, 4)]
    j += [J("h_c128", s, 12, 0, 1) for s in (0, 1, 2)] + [J("h_c128_all", 2), J("h_c128_long", 6500, 8), J("h_c128_grammar", 2, 9, 511), J("h_c128_grammar", 3, 9, 511)]
    j += [J("h_itf", n) for n in (1, 2, 5, 14, 64)] + [J("h_stf", n) for n in (1, 5, 64)]
    for w in range(13):
        n = FIX.get(w, 5 if w == 5 else 4)
        j += [J("h_accepts", w, k, 0, 1) for k in (0, n, n + 1)] + [J("h_accepts", w, n, 1, n)]
        if w > 5:
            j += [J("h_accepts", w, k, 0, 1) for k in (256, 257)]
        j.append(J("h_accepts_huge", w, 2 ** 32 + n))
    j += [J("h_ascii_default", 20), J("h_ascii_any", 3, 4, 4), J("h_ascii", 95, 4, 2), J("h_json_default", 20), J("h_json", 4, 100, 999, 1, 9), J("h_json", 4, 1, 9, 10000, 99999)]
    j += [J("h_svg", 5, 5, 0, 1, 80, 2), J("h_svg", 95, 2, 0b0110100101, 10, 50, 2), J("h_svg_size", 4, 0b1011, 100, 999, 1, 9), J("h_svg_default", 0b1011, 4)]
    j += [J("h_svg_colours", 5, 3, h, n) for h, n in ((0, 0), (1, 7), (2, 26))]
    j += [J("h_pure", w, 6, 0, 1) for w in (6, 7, 8, 10, 11, 12, 13)] + [J("h_pure", 9, 2, 0, 1)]
    for w, n in ((0, 12), (3, 7), (4, 11), (5, 2), (5, 5)):
        j += near_fixed(w, n)[:10]
    for w in range(6, 13):
        j += [dict(x, args=x["args"][:4] + [999]) for x in near(w, [1, 2, 3, 5, 8, 13, 20, 31, 32, 64, 100, 200, 256])]
    j += [J("h_c128_near", n % 3, n, n % 2, 3, n - 1, 9999) for n in (1, 2, 3, 5, 8, 12, 20, 40, 80, 95, 105)]
    j += [x for w in range(3) for x in gen_near(w)[::9] if not x["tier"]]
    j += [J("h_svg_near", 5, 3, k, k % 8) for k in range(8)]
    for f in (c06, c07, c12, c13, c10, c15, c16, c17):
        j += [dict(x, tier=1) for x in f() if x["tier"] == 0]
    seen, out = set(), []
    for x in j:
        k = (x["entry"], tuple(x["args"]))
        if k not in seen:
            seen.add(k)
            out.append(dict(x, variant="nostd"))
    return out


JOBS = {f"C{i:02d}": globals()[f"c{i:02d}"]() for i in (*range(1, 24), 25)}
