"""Families of schemas. Each is a set of weights for gen/schema.py; the corpus
(corpus.json) lists, per family, the seeds whose schemas were found well formed
and to have readable wires."""

SMALL = dict(nf=(2, 5), depth=1, nest_nf=(1, 3), alts=(2, 4))


def P(tag, **kw):
    d = dict(SMALL)
    d.update(kw)
    return tag, d


PROFILES = {
    'general': P('g'),
    'large': P('l', nf=(5, 9), depth=2),
    'wide': P('w', nf=(3, 7), p_narrow=0.65, p_exotic=0.3,
              kinds=dict(int=10, arr=4, carr=2, vec=3, rec=1, arrrec=1, fstr=1, magicnum=1)),
    'con': P('c', nf=(2, 5), p_constraint=0.9, p_seq_con=0.75, p_alt_con=0.75, p_union_con=0.6, p_rec_con=0.6, p_eq=0.08,
             p_len_con=0.7, kinds=dict(int=8, arr=3, fstr=2, carr=1, cstr=1, vec=2, str=1, rec=1, arrrec=1, union=2)),
    'magic': P('m', nf=(2, 6), p_eq=0.7, p_constraint=0.5, p_seq_con=0.4,
               kinds=dict(magicnum=4, magicbytes=2, magicstr=2, int=3, arr=2, fstr=1, vec=1, union=1, rec=1, maybe=1)),
    'lens': P('n', nf=(3, 6), p_share=0.5, p_computed=0.08, p_len_con=0.25, p_ceiling=0.08,
              kinds=dict(vec=5, str=3, vecrec=2, int=2, rec=1)),
    'cond': P('d', nf=(3, 6), p_share=0.6, p_computed=0.3, p_ceiling=0.08,
              kinds=dict(maybe=4, union=3, vec=2, str=1, int=1),
              maybe_kinds=dict(vec=4, str=3, vecrec=1), alt_kinds=dict(vec=3, str=2, vecrec=1, int=2)),
    'comp': P('k', nf=(3, 6), p_computed=0.9, p_ceiling=0.08,
              kinds=dict(vec=4, str=3, vecrec=1, int=2, maybe=1, union=1), maybe_kinds=dict(vec=3, str=2, int=1),
              alt_kinds=dict(vec=3, str=2, int=2)),
    'union': P('u', nf=(2, 5), alts=(2, 5), p_share_disc=0.15, p_disc_is_len=0.12,
               kinds=dict(union=6, int=3, rec=1, maybe=1)),
    'maybe': P('y', nf=(3, 7), kinds=dict(maybe=6, int=3, rec=1, vec=1, magicnum=1)),
    'ceil': P('e', nf=(2, 5), p_ceiling=0.75, p_share=0.4,
              kinds=dict(vec=4, str=3, vecrec=3, maybe=2, union=2, int=1),
              maybe_kinds=dict(vec=3, str=2, vecrec=2), alt_kinds=dict(vec=3, str=2, vecrec=2, int=1)),
    'nest': P('t', nf=(2, 4), depth=2, nest_nf=(1, 3),
              kinds=dict(rec=4, arrrec=3, vecrec=3, int=3, maybe=1, union=1, vec=1, magicnum=1)),
    'deep': P('p', nf=(1, 3), depth=4, nest_nf=(1, 2), kinds=dict(rec=4, arrrec=2, vecrec=2, int=3, vec=1)),
    'float': P('f', nf=(2, 5), float=1.0, kinds=dict(int=2, arr=4, carr=2, vec=4, union=2, rec=1, maybe=1)),
    'bulk': P('b', nf=(24, 34), depth=0, kinds=dict(int=30, magicnum=2, vec=2, maybe=2, arr=2, union=1)),
    'huge': P('h', nf=(36, 56), depth=1, nest_nf=(1, 2), p_constraint=0.15, p_seq_con=0.1, p_ceiling=0.05, p_between=0.1,
              kinds=dict(int=26, magicnum=6, magicstr=2, magicbytes=1, vec=3, str=2, maybe=3, union=3, arr=3, fstr=1, rec=1)),
    'pack': P('x', nf=(12, 18), depth=0, p_share=0.1, p_computed=0.1, p_constraint=0.1, p_seq_con=0.05, p_ceiling=0.05,
              kinds=dict(vec=8, str=5, maybe=3, union=1, int=1), maybe_kinds=dict(vec=3, str=2), alt_kinds=dict(vec=3, str=2, int=2)),
    'giant': P('z', nf=(65, 68), depth=0, p_constraint=0.05, p_seq_con=0.05, p_ceiling=0.02,
               kinds=dict(int=64, magicnum=1, vec=1, maybe=1, arr=2)),
    'manyalt': P('v', nf=(1, 3), alts=(6, 9), p_share_disc=0.1, kinds=dict(union=6, int=3)),
    'odd': P('o', nf=(2, 6), p_narrow=0.1, p_constraint=0.15, p_seq_con=0.1, p_alt_con=0.1, p_share=0.15, ones=True,
             kinds=dict(int=12, arr=4, carr=3, vec=2, rec=1, maybe=2, union=3, str=1, vecrec=1)),
    'broad': P('r', nf=(1, 4), depth=1, nest_nf=(1, 2), p_constraint=0.5,
               kinds=dict(int=6, arr=5, carr=2, fstr=3, cstr=2, magicbytes=2, magicstr=2, arrrec=2, maybe=3, union=5, vec=1)),
    'longmag': P('i', nf=(2, 5), p_eq=0.7, p_constraint=0.5, p_seq_con=0.85, p_alt_con=0.8,
                 kinds=dict(magicbytes=4, magicstr=4, int=2, arr=5, fstr=4, union=2, rec=1, maybe=1), alt_kinds=dict(arr=4, fstr=3, int=1, rec=1),
                 maybe_kinds=dict(arr=1, fstr=1, rec=2)),
    'cases': P('j', nf=(1, 3), depth=0, p_share=0.2, p_alt_con=0.15, kinds=dict(union=6, int=3)),
    'slot': P('q', nf=(2, 5), p_share=0.5, p_computed=0.05, p_ceiling=0.05, p_constraint=0.1, p_seq_con=0.05, p_len_con=0.05,
              kinds=dict(maybe=4, union=5, vec=3, str=2, vecrec=1),
              maybe_kinds=dict(vec=4, str=3, vecrec=1), alt_kinds=dict(vec=3, str=2, vecrec=1, int=2)),
    'shared': P('a', nf=(1, 4), depth=0, p_share=0.3, p_computed=0.6, p_ceiling=0.05, p_constraint=0.1, p_seq_con=0.1, p_alt_con=0.3, p_disc_is_len=0.0,
                p_share_disc=0.0, modes=dict(match=6, ladder=1), kinds=dict(union=5, vec=2, str=1, int=1), alt_kinds=dict(vec=2, str=2, int=3, arr=1, fstr=1)),
    'elems': P('E', nf=(1, 2), depth=0, kinds=dict(int=1)),
    'kin': P('K', nf=(2, 5), depth=1, p_constraint=0.15, p_seq_con=0.1, p_share=0.4, kinds=dict(int=4, vec=2, str=2, union=2, maybe=2, rec=2, magicnum=1)),
    'tiny': P('s', nf=(1, 2), depth=0),
}
