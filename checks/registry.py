from . import ring, stream
REG = {
    'P01': dict(run=stream.p01, level='proof'),
    'P02': dict(run=stream.p02, level='proof'),
    'P03': dict(run=stream.p03, level='proof'),
    'P04': dict(run=stream.p04, level='proof'),
    'P05': dict(run=stream.p05, level='proof'),
    'P06': dict(run=ring.p06, level='proof'),
    'P07': dict(run=ring.p07, level='proof'),
    'P08': dict(run=stream.p08, level='proof'),
}
from . import estim
REG.update({
    'P09': dict(run=estim.p09, level='proof'),
    'P10': dict(run=estim.p10, level='proof'),
    'P11': dict(run=estim.p11, level='proof'),
})
from . import brent
REG.update({'P12': dict(run=brent.p12, level='proof')})
from . import frame
REG.update({
    'P13': dict(run=frame.p13, level='proof'),
    'P14': dict(run=frame.p14, level='proof'),
    'P18': dict(run=frame.p18, level='proof'),
})
from . import p2
REG.update({'P23': dict(run=p2.p23, level='proof')})
from . import memory
from . import cost
REG.update({'P30': dict(run=cost.p30, level='proof')})
REG.update({'P15': dict(run=memory.p15, level='proof'), 'P29': dict(run=memory.p29, level='proof')})
from . import safety
REG.update({'P16': dict(run=safety.p16, level='proof')})
from . import texts
REG.update({'P19': dict(run=texts.p19, level='proof')})
from . import mathfn
REG.update({
    'P20': dict(run=mathfn.p20, level='proof', vt=True),
    'P21': dict(run=mathfn.p21, level='proof', vt=True),
    'P22': dict(run=mathfn.p22, level='proof', vt=True),
})
from . import term
REG.update({'P17': dict(run=term.p17, level='proof')})
from . import pyext
REG.update({
    'P24': dict(run=pyext.p24, level='proof'),
    'P25': dict(run=pyext.p25, level='proof'),
    'P26': dict(run=pyext.p26, level='proof'),
})
from . import js
REG.update({
    'P27': dict(run=js.p27, level='proof'),
    'P28': dict(run=js.p28, level='proof'),
})
