"""What a phase name says, independently of the code: the legs as a walk
through the branches of a layout.

A position is the number of a boundary (the top of that branch, n for the
centre); each leg goes from boundary to boundary in one direction, or turns
once from down to up.  A walk is a list of steps

    (branches, wave, down, event, leg)

with wave 'P', 'S' or 'K' (P in fluid) and event one of 'turn', 'reflect',
'transmit', 'end', 'diff' (turn along the bottom of the mantle) and 'head'
(turn along the top of the mantle)."""


class Layout(object):
    def __init__(self, n, source, moho, cmb, iocb, closest):
        self.n, self.source = n, source
        self.moho, self.cmb, self.iocb = moho, cmb, iocb
        self.closest = closest

    def boundary(self, s):
        named = {'m': self.moho, 'c': self.cmb, 'i': self.iocb}
        return named[s] if s in named else self.closest(s)


class NoPath(Exception):
    """the name describes no ray for this source"""


class NoPhase(Exception):
    """the name describes no ray at all"""


def is_depth(s):
    return s[:1].isdigit() or s[:1] == '.'


def walk(legs, lay):
    """steps of the phase with these legs (without END)"""
    out = []
    first = legs[0]
    if first[0] not in 'PSps':
        raise NoPhase('starts with ' + first)
    down = first[0] in 'PS'
    pos = lay.source
    if not down and pos == 0:
        raise NoPath('nothing above the source')
    wave = None

    def go(to, down, event, leg):
        """one stretch in one direction"""
        nonlocal pos
        bs = list(range(pos, to)) if down else list(range(pos - 1, to - 1,
                                                          -1))
        if not bs:
            raise NoPath('%s cannot get from %d to %d' % (leg, pos, to))
        out.append((bs, wave, down, event, leg))
        pos = to

    rays = [i for i, l in enumerate(legs)
            if l[0] in 'PSpsKIJ']
    for k, i in enumerate(rays):
        leg = legs[i]
        nxt = legs[i + 1] if i + 1 < len(legs) else 'END'
        ray = legs[rays[k + 1]] if k + 1 < len(rays) else 'END'
        if k + 1 < len(rays) and rays[k + 1] - i > 2 or \
                k + 1 == len(rays) and i + 1 != len(legs):
            raise NoPhase('boundary without a ray')
        # where the leg may be
        if leg in 'IJ':
            wave, top, bottom = 'PS'[leg == 'J'], lay.iocb, lay.n
        elif leg == 'K':
            wave, top, bottom = 'K', lay.cmb, lay.iocb
        else:
            wave, top, bottom = leg[0].upper(), 0, lay.cmb
            if leg in ('Pg', 'Sg', 'Pn', 'Sn'):
                bottom = lay.moho
        if k or wave != 'P' or bottom == lay.moho:
            inside = pos < bottom if down else pos <= bottom
            if pos < top or not inside or (pos == top and not down):
                raise NoPath('%s at %d' % (leg, pos))
        if leg in ('p', 's') and (down or nxt in ('p', 's')) or \
                leg in ('Pg', 'Sg') and not down:
            raise NoPath('%s has the wrong direction' % leg)
        # what ends it: boundary, direction there, event, direction after
        if nxt == 'END' and leg in 'KIJ':
            raise NoPhase('ends in the core')
        if nxt[0] == 'v' and leg not in ('p', 's'):
            end = lay.boundary(nxt[1:]), True, 'reflect', False
        elif nxt == 'c' and leg in ('P', 'S'):
            end = lay.cmb, True, 'reflect', False
        elif nxt == 'i' and leg == 'K':
            end = lay.iocb, True, 'reflect', False
        elif nxt in ('c', 'i') or nxt[0] == 'v':
            raise NoPhase(leg + nxt)
        elif nxt[0] == '^':
            prev = legs[i - 1] if i else 'P'
            if leg in 'KIJ' or leg in ('P', 'S') and not (
                    prev in ('P', 'S', 'p', 's', 'K', 'c', 'm')
                    or prev[0] in '^v'):
                raise NoPhase(prev + leg + nxt)
            end = lay.boundary(nxt[1:]), False, 'reflect', True
        elif nxt == 'm' or is_depth(nxt):
            x = lay.boundary(nxt)
            if leg in 'KIJ' or x >= lay.cmb and leg in ('P', 'S') or \
                    ray not in ('P', 'S', 'p', 's'):
                raise NoPhase(leg + nxt + ray)
            up = not down or ray in ('p', 's')
            end = x, not up, 'transmit', not up
        elif leg in 'IJ':
            if ray not in ('I', 'J', 'K'):
                raise NoPhase(leg + ray)
            end = (lay.iocb, False) + (
                ('transmit', False) if ray == 'K' else ('reflect', True))
        elif leg == 'K':
            if ray in ('P', 'S'):
                end = lay.cmb, False, 'transmit', False
            elif ray == 'K':
                end = lay.cmb, False, 'reflect', True
            elif ray in ('I', 'J'):
                end = lay.iocb, True, 'transmit', True
            else:
                raise NoPhase(leg + ray)
        elif ray == 'K':
            if leg[0] in 'PS':
                end = lay.cmb, True, 'transmit', True
            else:
                end = lay.cmb, False, 'reflect', True
        elif leg in ('P', 'S') and ray[1:] in ('g', 'diff'):
            raise NoPhase(leg + ray)
        elif ray == 'END' or ray[0] in 'PSps':
            end = 0, False, 'end' if ray == 'END' else 'reflect', True
        else:
            raise NoPhase(leg + ray)
        to, want, event, after = end
        if leg[0] in 'PS' and want and pos < lay.cmb < to:
            raise NoPath('%s reaches into the core' % leg)
        if leg[1:] in ('n', 'diff', 'g') and (
                nxt != 'END' and nxt[0] not in 'PSps'):
            raise NoPhase(leg + nxt)
        if leg[1:] in ('n', 'diff'):
            if not down:
                raise NoPath('%s upwards' % leg)
            head = leg[1:] == 'n'
            go(lay.moho + 1 if head else lay.cmb, True,
               'head' if head else 'diff', leg)
            down = False
            if head:
                go(lay.moho, False, 'transmit', leg)
            if ray[0] in 'ps':
                # it goes on upwards as another leg
                if not head and ray[0].upper() != wave:
                    raise NoPhase('conversion at a turning point')
                continue
        if down and not want:
            if leg in ('p', 's'):
                raise NoPath('%s does not turn' % leg)
            if leg == 'K' and legs[rays[k - 1]] == 'p':
                raise NoPhase('source in the core')
            go(bottom, True, 'turn', leg)
            down = False
        if down != want:
            raise NoPath('%s would have to turn down' % leg)
        go(to, want, event, leg)
        down = after
    return out
