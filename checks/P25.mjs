// Floating panels: where they sit, that they follow their target, and when they are there.
import { all, json, key, product } from '../lib/kit.mjs';

const PLACEMENTS = ['top', 'right', 'bottom', 'left', 'middle'];
const ALIGNS = ['start', 'center', 'end'];
const VIEW = { width: 400, height: 300 };
const TARGET = { width: 60, height: 20 };
const PANELS = { fits: { width: 100, height: 80 }, 'is too large': { width: 350, height: 280 } };
const SCROLLS = [
    [0, 0],
    [30, 500],
];
// the edges of the window, the last place where there is room on either side, one further, and the middle
const TOPS = [0, 79, 80, 139, 140, 141, 200, 201, 280];
const LEFTS = [0, 99, 100, 169, 170, 171, 240, 241, 340];
const PLACES = [...TOPS.map((t, i) => [LEFTS[i], t]), ...TOPS.map((t) => [150, t]), ...LEFTS.map((l) => [l, 130])];

// ------------------------------------------------------------------ the world's geometry
// The target is given by its place in the window; the panel by its natural size.
function makeGeometry() {
    const geo = { view: { ...VIEW }, scroll: [0, 0], target: { left: 150, top: 130, ...TARGET }, panel: { ...PANELS.fits }, isTarget: (el) => el.id === 'target' };
    const rect = (r) => ({ ...r, x: r.left, y: r.top, right: r.left + r.width, bottom: r.top + r.height, toJSON() {} });
    const size = (el) => {
        const f = el.closest?.('.vs-floating, .attachment');
        if (f) {
            return { width: parseFloat(f.style.width) || geo.panel.width, height: geo.panel.height };
        }
        return geo.isTarget(el) ? geo.target : { width: 0, height: 0 };
    };
    const proto = Element.prototype;
    const old = proto.getBoundingClientRect;
    proto.getBoundingClientRect = function () {
        if (geo.isTarget(this)) {
            return rect(geo.target);
        }
        const f = this.closest('.vs-floating, .attachment');
        return f ? rect({ left: (parseFloat(f.style.left) || 0) - geo.scroll[0], top: (parseFloat(f.style.top) || 0) - geo.scroll[1], ...size(this) }) : rect({ left: 0, top: 0, width: 0, height: 0 });
    };
    const saved = [];
    const define = (object, name, get) => {
        saved.push([object, name, Object.getOwnPropertyDescriptor(object, name)]);
        Object.defineProperty(object, name, { get, configurable: true });
    };
    for (const [name, axis] of [['Width', 'width'], ['Height', 'height']]) {
        define(HTMLElement.prototype, 'offset' + name, function () {
            return size(this)[axis];
        });
        define(globalThis, 'inner' + name, () => geo.view[axis]);
        define(document.documentElement, 'client' + name, () => geo.view[axis]);
    }
    define(globalThis, 'scrollX', () => geo.scroll[0]);
    define(globalThis, 'scrollY', () => geo.scroll[1]);
    define(globalThis, 'pageXOffset', () => geo.scroll[0]);
    define(globalThis, 'pageYOffset', () => geo.scroll[1]);
    geo.restore = () => {
        proto.getBoundingClientRect = old;
        for (const [object, name, d] of saved.reverse()) {
            if (d) {
                Object.defineProperty(object, name, d);
            } else {
                delete object[name];
            }
        }
    };
    return geo;
}

function wanted(geo, { placement, align, margin, followWidth }) {
    const t = { ...geo.target, right: geo.target.left + geo.target.width, bottom: geo.target.top + geo.target.height };
    const p = { width: followWidth ? t.width : geo.panel.width, height: geo.panel.height };
    const room = { top: t.top, bottom: geo.view.height - t.bottom, left: t.left, right: geo.view.width - t.right };
    const need = { top: p.height, bottom: p.height, left: p.width, right: p.width };
    const other = { top: 'bottom', bottom: 'top', left: 'right', right: 'left' }[placement];
    const side = other && room[placement] < need[placement] && room[other] > room[placement] ? other : placement;
    const along = (from, length, own) => ({ start: from, center: from + length / 2 - own / 2, end: from + length - own })[align];
    const upright = side === 'top' || side === 'bottom' || side === 'middle';
    const left = upright ? along(t.left, t.width, p.width) : side === 'left' ? t.left - p.width - margin : t.right + margin;
    const top = !upright ? along(t.top, t.height, p.height) : side === 'top' ? t.top - p.height - margin : side === 'bottom' ? t.bottom + margin : t.top + t.height / 2 - p.height / 2;
    return { side, left: left + geo.scroll[0], top: top + geo.scroll[1], width: followWidth ? t.width : null };
}

const px = (v) => (v === '' ? null : parseFloat(v));
function seen(panel) {
    return { side: panel.querySelector('.side')?.textContent ?? panel.dataset.side, left: px(panel.style.left), top: px(panel.style.top), width: px(panel.style.width) };
}

async function observersFire(env) {
    for (const o of [...env.observers.resize]) {
        if (o.targets.size) {
            await env.act(() => o.cb([...o.targets].map((target) => ({ target })), o));
        }
    }
}

const watched = (env) => [...env.observers.resize].reduce((n, o) => n + o.targets.size, 0) + env.listeners('document', 'scroll').length + env.listeners('window', 'resize').length + env.listeners('window', 'scroll').length;

// ------------------------------------------------------------------ the places
const COMBOS = product(PLACEMENTS, ALIGNS, [0, '7'], [false, true], [0, 1], Object.keys(PANELS)).map(([placement, align, margin, followWidth, scroll, panel]) => ({ placement, align, margin, followWidth, scroll, panel }));

async function places(env, c, kind, start) {
    const { h, ref, shallowReactive } = env.vue;
    const lib = env.instance();
    const geo = makeGeometry();
    try {
        geo.scroll = SCROLLS[c.scroll];
        geo.panel = { ...PANELS[c.panel] };
        const p = shallowReactive({ show: false });
        const box = { h };
        const direct = {
            setup() {
                const attachment = ref(null);
                const pos = lib.usePositioning('#target', attachment);
                box.pos = pos;
                return () => h('main', [h('button', { id: 'target' }), pos.isVisible.value ? h('div', { ref: attachment, class: 'attachment', 'data-side': pos.computedPlacement.value }) : null]);
            },
        };
        const floating = () =>
            h('main', [
                h('button', { id: 'target' }),
                kind === 'tooltip'
                    ? h(lib.VsTooltip, { target: '#target', placement: c.placement, align: c.align, margin: c.margin, noAnimation: true }, { tooltip: () => 'tip' })
                    : h(
                          lib.VsFloating,
                          { target: '#target', placement: c.placement, align: c.align, margin: c.margin, followWidth: c.followWidth, noAnimation: true, modelValue: p.show, 'onUpdate:modelValue': (v) => (p.show = v) },
                          { default: ({ placement }) => h('i', { class: 'side' }, placement) },
                      ),
            ]);
        await env.mount(kind === 'composable' ? direct : { render: floating }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        [geo.target.left, geo.target.top] = PLACES[start];
        if (kind === 'composable') {
            await env.act(() => box.pos.appear({ placement: c.placement, align: c.align, margin: Number(c.margin), followWidth: c.followWidth }));
        } else if (kind === 'tooltip') {
            await env.act(() => document.querySelector('#target').dispatchEvent(new MouseEvent('mouseenter')));
        } else {
            await env.act(() => (p.show = true));
        }
        await env.advance(1);
        await observersFire(env);
        let n = 0;
        for (let i = 0; i < PLACES.length; i++) {
            const at = PLACES[(start + i) % PLACES.length];
            if (i) {
                [geo.target.left, geo.target.top] = at;
                await env.advance(50);
                await env.act(() => window.dispatchEvent(new Event('resize')));
            }
            const panel = document.querySelector('.vs-floating, .attachment');
            if (!panel) {
                return { n, violation: `with the target at ${json(at)} the panel is not there` };
            }
            const got = seen(panel);
            if (kind === 'tooltip') {
                got.side = [...panel.querySelector('.vs-tooltip').classList].find((x) => x.startsWith('vs-placement-')).slice('vs-placement-'.length);
                const aligned = panel.querySelector('.vs-tooltip').classList.contains('vs-align-' + c.align);
                if (!aligned) {
                    return { n, violation: 'the tooltip does not say how it is aligned' };
                }
            }
            const want = wanted(geo, { ...c, margin: Number(c.margin) });
            n++;
            if (json(got) !== json(want)) {
                return { n, violation: `with the target at ${json(at)} of ${json(geo.view)} and a panel that ${c.panel} the panel is at ${json(got)}, expected ${json(want)}` };
            }
        }
        return { n, violation: env.errors.length ? 'error: ' + env.errors[0] : null };
    } finally {
        geo.restore();
    }
}

// ------------------------------------------------------------------ following
const MOVES = {
    'the target moves in its scrolled box': (sys) => {
        sys.geo.target.top = (sys.geo.target.top + 90) % 270;
        document.querySelector('.box').dispatchEvent(new Event('scroll'));
    },
    'the page is scrolled': (sys) => {
        sys.geo.scroll = [sys.geo.scroll[0] + 5, sys.geo.scroll[1] + 60];
        sys.geo.target.top -= 60;
        sys.geo.target.left -= 5;
        document.dispatchEvent(new Event('scroll'));
    },
    'the window changes its size': (sys) => {
        sys.geo.view = sys.geo.view.height === 300 ? { width: 250, height: 190 } : { ...VIEW };
        window.dispatchEvent(new Event('resize'));
    },
    'the panel grows': (sys) => {
        sys.geo.panel.height += 30;
        sys.geo.panel.width += 10;
        fire(sys, '.vs-floating, .attachment');
    },
    'the target grows': (sys) => {
        sys.geo.target.width += 11;
        sys.geo.target.height += 7;
        fire(sys, '#target');
    },
};

function fire(sys, selector) {
    const el = document.querySelector(selector);
    for (const o of [...sys.env.observers.resize]) {
        if (el && o.targets.has(el)) {
            o.cb([{ target: el }], o);
        }
    }
}

// ------------------------------------------------------------------ tooltips
const TIPS = product([false, true], [false, true]).map(([clickable, contentsHover]) => ({ clickable, contentsHover }));

const follow = {
    async start(sys) {
        const { env, sc } = sys;
        const { h, ref, shallowReactive } = env.vue;
        const lib = env.instance();
        const c = sc.panel;
        sys.p = shallowReactive({ show: false });
        sys.changed = [];
        const frame = (inner) => h('main', [h('div', { class: 'box' }, [h('button', { id: 'target' })]), inner]);
        const direct = {
            setup() {
                const attachment = ref(null);
                sys.pos = lib.usePositioning('#target', attachment);
                return () => frame(h('div', { ref: attachment, class: 'attachment', 'data-side': sys.pos.computedPlacement.value, 'data-shown': sys.pos.isVisible.value }));
            },
        };
        const floating = () =>
            frame(
                h(
                    lib.VsFloating,
                    { target: '#target', ...c, noAnimation: true, modelValue: sys.p.show, 'onUpdate:modelValue': (v) => (sys.p.show = v) },
                    { default: ({ placement }) => h('i', { class: 'side' }, placement) },
                ),
            );
        sys.app = await env.mount(sc.direct ? direct : { render: floating }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        sys.base = watched(env);
        sys.shown = false;
        sys.judge = true;
        sys.gone = false;
        if (!sc.direct) {
            await follow.step(sys, 'show');
        }
    },
    enabled(sys) {
        if (sys.gone) {
            return [];
        }
        const moves = Object.keys(MOVES);
        const shown = sys.shown;
        if (sys.sc.direct) {
            return ['appear', 'disappear', 'appear, disappear', 'disappear, appear', 'appear, disappear, appear', 'appear twice', moves[0], moves[2]];
        }
        return [...moves, ...(shown ? [moves[0] + ' at once', moves[4] + ' at once', 'hide'] : ['show']), 'unmount'];
    },
    async step(sys, action) {
        const { env, p } = sys;
        if (action === 'unmount') {
            await env.act(() => sys.app.unmount());
            sys.gone = true;
            sys.shown = false;
            await env.advance(1000);
            return;
        }
        if (sys.sc.direct && /appear/.test(action)) {
            const words = action === 'appear twice' ? ['appear', 'appear'] : action.split(', ');
            await env.act(() => {
                for (const w of words) {
                    if (w === 'appear') {
                        sys.pos.appear(sys.sc.panel);
                    } else {
                        sys.pos.disappear();
                    }
                }
            });
            sys.shown = words.at(-1) === 'appear';
            await env.advance(50);
            await observersFire(env);
            sys.judge = true;
            return;
        }
        if (action === 'show' || action === 'hide') {
            await env.act(() => (p.show = action === 'show'));
            await env.advance(50);
            sys.shown = action === 'show';
            await observersFire(env);
            sys.judge = true;
            return;
        }
        const quick = action.endsWith(' at once');
        const move = MOVES[quick ? action.slice(0, -' at once'.length) : action];
        if (quick) {
            await env.act(() => move(sys));
            sys.judge = false;
            return;
        }
        await env.advance(50);
        await env.act(() => move(sys));
        await env.advance(50);
        if (sys.sc.panel.followWidth) {
            // the panel has taken another width
            await env.act(() => fire(sys, '.vs-floating, .attachment'));
            await env.advance(50);
        }
        sys.judge = true;
    },
    verdict(sys) {
        const { env } = sys;
        const panel = document.querySelector('.vs-floating, .attachment');
        const there = sys.sc.direct ? panel?.dataset.shown === 'true' : !!panel;
        if (there !== sys.shown) {
            return `the panel is ${there ? '' : 'not '}there`;
        }
        const n = watched(env);
        if (!sys.shown && n !== sys.base) {
            return `${n - sys.base} scroll, resize or size observations are left although no panel is there`;
        }
        if (sys.shown && n - sys.base > 4) {
            return `one panel makes ${n - sys.base} observations`;
        }
        if (sys.shown && sys.judge) {
            const got = seen(panel);
            const want = wanted(sys.geo, sys.sc.panel);
            if (json(got) !== json(want)) {
                return `the panel is at ${json(got)}, expected ${json(want)}`;
            }
        }
        return null;
    },
};

const timing = {
    async start(sys) {
        const { env, sc } = sys;
        const { h, shallowReactive } = env.vue;
        const lib = env.instance();
        sys.p = shallowReactive({ show: false, disabled: false });
        sys.events = [];
        sys.app = await env.mount(
            {
                render: () =>
                    h('main', [
                        h('button', { id: 'target' }),
                        h(lib.VsFloating, { target: '#target', ...sc.props, disabled: sys.p.disabled, modelValue: sys.p.show, 'onUpdate:modelValue': (v) => (sys.events.push(v), (sys.p.show = v)) }, { default: () => 'panel' }),
                    ]),
            },
            { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] },
        );
        sys.base = watched(env);
        sys.shown = false;
        sys.due = null;
        sys.expected = [];
    },
    enabled(sys) {
        if (sys.gone) {
            return [];
        }
        const acts = [sys.p.show ? 'no longer wanted' : 'wanted', 'unmount'];
        const want = sys.p.show && !sys.p.disabled;
        // disabling what is not wanted changes nothing
        if (sys.due === null || want) {
            acts.push(sys.p.disabled ? 'enable' : 'disable');
        }
        if (sys.due !== null) {
            acts.push('wait');
            if (sys.due - sys.env.clock.now > 1) {
                acts.push('wait half');
            }
        }
        return acts;
    },
    change(sys) {
        const { props } = sys.sc;
        const want = sys.p.show && !sys.p.disabled;
        sys.due = sys.env.clock.now + (want ? Number(props.enterDelay ?? 0) : props.noAnimation ? 0 : Number(props.leaveDelay ?? 0) + 250);
        sys.next = want;
    },
    async step(sys, action) {
        const { env, p } = sys;
        sys.early = null;
        if (action === 'unmount') {
            await env.act(() => sys.app.unmount());
            sys.gone = true;
            sys.shown = false;
            sys.due = null;
            await env.advance(2000);
        } else if (action === 'wait half') {
            await env.advance(Math.floor((sys.due - env.clock.now) / 2));
        } else if (action === 'wait') {
            const left = sys.due - env.clock.now;
            if (left > 0) {
                await env.advance(left - 1);
                sys.early = !!document.querySelector('.vs-floating') !== sys.shown;
                await env.advance(1);
            } else {
                await env.advance(0);
            }
            if (sys.shown !== sys.next) {
                sys.shown = sys.next;
                sys.expected.push(sys.next);
            }
            sys.due = null;
        } else {
            await env.act(() => {
                if (action === 'wanted' || action === 'no longer wanted') {
                    p.show = action === 'wanted';
                } else {
                    p.disabled = action === 'disable';
                }
            });
            timing.change(sys);
        }
    },
    verdict(sys) {
        const there = !!document.querySelector('.vs-floating');
        if (sys.early) {
            return `the panel is ${sys.shown ? 'there' : 'gone'} before its time`;
        }
        if (there !== sys.shown) {
            return `the panel is ${there ? '' : 'not '}there`;
        }
        if (!sys.gone && json(sys.events) !== json(sys.expected)) {
            return `it told ${json(sys.events)}, expected ${json(sys.expected)}`;
        }
        if (!sys.shown && watched(sys.env) !== sys.base) {
            return `${watched(sys.env) - sys.base} observations are left although no panel is there`;
        }
        if (sys.gone && sys.env.pending().length) {
            return `${sys.env.pending().length} timers are left`;
        }
        return null;
    },
};

const tips = {
    async start(sys) {
        const { env, sc } = sys;
        const { h, shallowReactive } = env.vue;
        const lib = env.instance();
        sys.p = shallowReactive({ disabled: false });
        const props = { noAnimation: true, clickable: sc.clickable, contentsHover: sc.contentsHover, escClose: sc.escClose };
        sys.app = await env.mount(
            {
                render: () =>
                    h('main', [
                        h('button', { id: 'target' }),
                        sc.target ? h(lib.VsTooltip, { ...props, target: '#target', disabled: sys.p.disabled }, { tooltip: () => 'tip' }) : h(lib.VsTooltip, { ...props, disabled: sys.p.disabled }, { default: () => h('u', 'hover me'), tooltip: () => 'tip' }),
                    ]),
            },
            { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] },
        );
        sys.trigger = sc.target ? document.querySelector('#target') : sys.app.el.querySelector('.vs-tooltip-trigger');
        sys.base = watched(env);
        sys.m = { over: false, onTip: false, opened: false, grace: false };
    },
    want(sys) {
        const { over, onTip, opened, grace } = sys.m;
        const { clickable, contentsHover } = sys.sc;
        return !sys.gone && !sys.p.disabled && (over || (contentsHover && (onTip || grace))) && (!clickable || opened);
    },
    enabled(sys) {
        if (sys.gone) {
            return [];
        }
        const { m, sc } = sys;
        const shown = tips.want(sys);
        const acts = [];
        if (!m.onTip) {
            acts.push(m.over ? 'leave' : 'enter');
        }
        if (m.over) {
            acts.push('click');
        }
        if (shown && !m.over) {
            acts.push(m.onTip ? 'off' : 'on');
        }
        if (shown) {
            acts.push('Escape');
        }
        if (m.grace) {
            acts.push('wait');
        }
        if (sc.switches && !m.grace && !m.over && !m.onTip) {
            acts.push(sys.p.disabled ? 'enable' : 'disable');
        }
        acts.push('unmount');
        return acts;
    },
    async step(sys, action) {
        const { env, m, sc } = sys;
        const kind = { enter: sc.focus ? 'focusin' : 'mouseenter', leave: sc.focus ? 'focusout' : 'mouseleave' };
        const tip = document.querySelector('.vs-tooltip');
        const settle = () => {
            if (!m.over && !m.onTip && !m.grace) {
                m.opened = false;
            }
        };
        switch (action) {
            case 'enter':
            case 'leave':
                await env.act(() => sys.trigger.dispatchEvent(new Event(kind[action], { bubbles: sc.focus })));
                m.over = action === 'enter';
                if (action === 'leave' && sc.contentsHover) {
                    m.grace = true;
                }
                break;
            case 'click':
                await env.act(() => sys.trigger.dispatchEvent(new MouseEvent('click', { bubbles: true })));
                if (sc.clickable) {
                    m.opened = !m.opened;
                }
                break;
            case 'on':
            case 'off':
                await env.act(() => tip.dispatchEvent(new MouseEvent(action === 'on' ? 'mouseenter' : 'mouseleave')));
                m.onTip = action === 'on';
                if (action === 'off' && sc.contentsHover) {
                    m.grace = true;
                }
                break;
            case 'Escape':
                await env.act(() => key(document.body, 'Escape'));
                if (sc.escClose) {
                    if (sc.clickable) {
                        m.opened = false;
                    } else {
                        m.over = false;
                        m.onTip = false;
                        m.grace = false;
                    }
                }
                break;
            case 'wait':
                m.grace = false;
                await env.advance(150);
                break;
            case 'enable':
            case 'disable':
                await env.act(() => (sys.p.disabled = action === 'disable'));
                break;
            case 'unmount':
                await env.act(() => sys.app.unmount());
                sys.gone = true;
                await env.advance(2000);
                await env.act(() => sys.trigger.dispatchEvent(new Event('mouseenter')));
                await env.advance(10);
                break;
        }
        settle();
        if (!tips.want(sys)) {
            m.onTip = false;
        }
        await env.advance(1);
    },
    verdict(sys) {
        const there = !!document.querySelector('.vs-tooltip');
        const want = tips.want(sys);
        if (there !== want) {
            return `the tooltip is ${there ? '' : 'not '}shown`;
        }
        if (!there && watched(sys.env) !== sys.base) {
            return `${watched(sys.env) - sys.base} observations are left although no tooltip is shown`;
        }
        return null;
    },
};

const PARTS = { follow, timing, tips };

export default {
    id: 'P25',
    world: 'ui',
    method: 'every requested side, alignment, gap and width is placed at every edge of the window; every sequence, up to the depth, of moves of target, panel, page and window, of wanting, disabling, waiting and unmounting, and of pointer, focus, click and key on tooltips is run on the real panels; place, presence and observations left are compared after every step',
    assumptions: ['sizes and places of elements are those the harness gives them', 'a move within 30 ms of the previous one may be followed with the next move'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return [
            { name: 'places of a panel', enumerate: true, kind: 'floating' },
            { name: 'places by the composable', enumerate: true, kind: 'composable' },
            { name: 'places of a tooltip', enumerate: true, kind: 'tooltip' },
            ...[
                ['below', { placement: 'bottom', align: 'start', margin: 5, followWidth: false }],
                ['above, as wide as its target', { placement: 'top', align: 'end', margin: 0, followWidth: true }],
                ['to the right', { placement: 'right', align: 'center', margin: 3, followWidth: false }],
            ].map(([name, panel]) => ({ name: 'a panel ' + name + ' follows', part: 'follow', panel, depth: deep ? 5 : 4 })),
            { name: 'a panel placed directly', part: 'follow', direct: true, panel: { placement: 'left', align: 'end', margin: 2, followWidth: false }, depth: deep ? 5 : 4 },
            ...[
                ['at once', { noAnimation: true }],
                ['with delays', { enterDelay: 100, leaveDelay: 200 }],
                ['with delays as text, fading', { enterDelay: '40', leaveDelay: '0' }],
                ['late, without animation', { enterDelay: 300, noAnimation: true }],
            ].map(([name, props]) => ({ name: 'a panel comes and goes ' + name, part: 'timing', props, depth: deep ? 8 : 7 })),
            ...TIPS.flatMap((t) => [
                { name: `a tooltip ${json(t)}`, part: 'tips', ...t, escClose: true, focus: false, target: false, depth: deep ? 9 : 8 },
                { name: `a tooltip of another element, by focus ${json(t)}`, part: 'tips', ...t, escClose: false, focus: true, target: true, switches: true, depth: deep ? 8 : 7 },
            ]),
        ];
    },

    enumerator(world, sc) {
        const combos = COMBOS.filter((c) => sc.kind !== 'tooltip' || !c.followWidth);
        return {
            total: combos.length,
            async evaluate(i) {
                const r = await places(world, combos[i], sc.kind, i % PLACES.length);
                await world.reset();
                return { state: json([sc.kind, combos[i]]), sample: json(combos[i]), outcome: 'placed', transitions: r.n, violation: r.violation };
            },
        };
    },

    async start(env, sc) {
        const sys = { env, sc, geo: makeGeometry() };
        await PARTS[sc.part].start(sys);
        return sys;
    },
    enabled: (sys) => PARTS[sys.sc.part].enabled(sys),
    step: (sys, action) => PARTS[sys.sc.part].step(sys, action),
    verdict(sys) {
        if (sys.env.errors.length) {
            return `error: ${sys.env.errors[0]}`;
        }
        return PARTS[sys.sc.part].verdict(sys);
    },
    state: (sys) => json([sys.sc.name, sys.shown, sys.due, sys.gone, sys.p, sys.m, sys.geo.target, sys.geo.panel, sys.geo.view, sys.geo.scroll]),
    stop: (sys) => sys.geo.restore(),
};
