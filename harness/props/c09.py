# -*- coding: utf-8 -*-
"""All data coding schemes"""
from engine import Space, free, dev
from dcommon import Addr, Text, ie_filler, fits, check_deliver
import ref_sms
from props.c08 import BASE, CONCAT
from messaging.sms import SmsDeliver


def case(cfg, ctx):
    dcs = cfg['dcs']
    if ref_sms.compressed(dcs):
        return 'compressed (outside the property)'
    fmt = ref_sms.alphabet(dcs)
    t = Text(fmt, cfg['kind'], cfg['n'])
    udh = cfg['udh']
    if not fits(t, udh):
        return 'does not fit'
    check_deliver(ctx, SmsDeliver, BASE['addr'], t, BASE['csca'], 0, dcs, udh, BASE['ts'],
                  lower=cfg['lower'])
    return 'group %x0 alphabet %d' % (dcs >> 4, fmt)


def spaces(tier):
    q = tier != 'thorough'
    ns = [0, 1, 2, 6, 7, 8, 9, 20, 33, 60, 67, 70, 100, 134, 140, 152, 153, 159, 160] if q else range(0, 161)
    udhs = [None, CONCAT, [], ie_filler(2), ie_filler(9), CONCAT + [5, 4, 0x0b, 0x84, 0x23, 0xf0]]
    return [Space('every coding value', [free('dcs', range(256)), free('n', ns), free('kind', ['pat']),
                                         free('udh', udhs), free('lower', [False, True])], case)]
