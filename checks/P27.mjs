// Scrolling: locks that hold as long as somebody holds them, shadows on what scrolls, the box that scrolls.
import { json, product } from '../lib/kit.mjs';

const OVERFLOW = ['', 'visible', 'hidden', 'auto', 'scroll'];
const TYPES = ['', 'normal', 'inline-size', 'scroll-state', 'size scroll-state'];
const NONE = '(none)';

function sized(el, { x, y, width = 100, height = 60 }) {
    const one = (name, value) => Object.defineProperty(el, name, { value, configurable: true });
    one('clientWidth', width);
    one('clientHeight', height);
    one('scrollWidth', x ? width + 1 : width);
    one('scrollHeight', y ? height + 1 : height);
}

const scrolls = (overflow, more) => overflow === 'scroll' || (overflow === 'auto' && more);

function shadowOf(el) {
    return { shadow: el.classList.contains('vs-scroll-shadow'), type: el.style.getPropertyValue('container-type') };
}
function shadowWanted(on, type) {
    const own = type === 'normal' ? '' : type;
    return { shadow: on, type: on ? (own.includes('scroll-state') ? own : (own + ' scroll-state').trim()) : type };
}

const KINDS = {
    'what gets a shadow': {
        cases: () => product(OVERFLOW, OVERFLOW, [false, true], [false, true], TYPES, [NONE, true, false]),
        async run(env, [ox, oy, x, y, type, value]) {
            const { h, withDirectives } = env.vue;
            const lib = env.instance();
            const size = { mounted: () => {}, beforeMount: (el) => sized(el, { x, y }) };
            const root = () => h('main', [withDirectives(h('div', { class: 'it', style: { overflowX: ox, overflowY: oy, containerType: type } }), [[size], value === NONE ? [lib.scrollShadow] : [lib.scrollShadow, value]])]);
            const app = await env.mount({ render: root }, {});
            const el = app.el.querySelector('.it');
            const want = shadowWanted(value !== false && (scrolls(ox, x) || scrolls(oy, y)), type);
            const got = shadowOf(el);
            if (json(got) !== json(want)) {
                return `${json(got)}, expected ${json(want)}`;
            }
            await env.act(() => app.unmount());
            const after = shadowOf(el);
            return json(after) === json(shadowWanted(false, type)) ? null : `${json(after)} is left`;
        },
    },
    'shadows of a scrolling body': {
        cases: () => product(OVERFLOW, [false, true], [false, true]),
        async run(env, [overflow, more, hideScroll]) {
            const { h } = env.vue;
            const lib = env.instance();
            const size = { beforeMount: (el) => sized(el, { x: false, y: more }) };
            const proto = HTMLElement.prototype;
            Object.defineProperty(proto, 'scrollHeight', { get: () => (more ? 200 : 100), configurable: true });
            Object.defineProperty(proto, 'clientHeight', { get: () => 100, configurable: true });
            try {
                const app = await env.mount({ render: () => h('main', [h(lib.VsInnerScroll, { hideScroll, ref: 'it', styleSet: { $content: { overflowY: overflow } } }, { default: () => 'text', header: () => 'h' })]) }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
                const body = app.el.querySelector('.vs-inner-scroll-body');
                const got = shadowOf(body);
                const want = shadowWanted(scrolls(overflow, more), '');
                if (json(got) !== json(want)) {
                    return `${json(got)}, expected ${json(want)}`;
                }
                const has = app.vm.$refs.it.hasScroll();
                return has === more ? null : `hasScroll() is ${has}`;
            } finally {
                delete proto.scrollHeight;
                delete proto.clientHeight;
            }
        },
    },
    'the box that scrolls': {
        cases: () => product(...Array(3).fill(['-', 'auto, more', 'auto, fits', 'scroll', 'hidden'])),
        async run(env, boxes) {
            const { h, withDirectives } = env.vue;
            const lib = env.instance();
            const size = (b) => ({ beforeMount: (el) => sized(el, { x: true, y: b !== 'auto, fits' }) });
            const style = (b) => (b === '-' ? {} : { overflowY: b.split(',')[0] });
            const wrap = ([b, ...rest], i) => withDirectives(h('div', { class: 'box' + i, style: style(b) }, [rest.length ? wrap(rest, i + 1) : h(lib.VsVisibleRender, { class: 'it' }, () => [h('p', 'a'), h('p', 'b')])]), [[size(b)]]);
            const app = await env.mount({ render: () => wrap(boxes, 0) }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
            await env.advance(10);
            const observers = [...env.observers.intersection].filter((o) => o.targets.size);
            if (observers.length !== 1) {
                return `${observers.length} observers watch what is visible`;
            }
            const root = observers[0].options.root;
            const got = root ? root.className : null;
            const at = boxes.findLastIndex((b) => b === 'auto, more' || b === 'scroll');
            const want = at === -1 ? null : 'box' + at;
            return got === want ? null : `what is visible is measured in ${got}, expected ${want}`;
        },
    },
};

// ------------------------------------------------------------------ locks
const STYLES = { plain: { overflow: '', paddingRight: '', paddingBottom: '' }, styled: { overflow: 'scroll', paddingRight: '3px', paddingBottom: '4px' } };
const styleOf = (el) => ({ overflow: el.style.overflow, paddingRight: el.style.paddingRight, paddingBottom: el.style.paddingBottom });

const locks = {
    async start(sys) {
        const { env, sc } = sys;
        const { h } = env.vue;
        const lib = env.instance();
        delete globalThis.ontouchstart;
        navigator.maxTouchPoints = 0;
        if (sc.touch === 'coarse') {
            env.media['(pointer: coarse)'] = true;
        } else if (sc.touch === 'points') {
            navigator.maxTouchPoints = 5;
        } else if (sc.touch === 'events') {
            globalThis.ontouchstart = null;
        }
        sys.el = document.body;
        if (sc.container === '#box') {
            sys.el = document.createElement('div');
            sys.el.id = 'box';
            document.body.appendChild(sys.el);
        }
        Object.assign(sys.el.style, STYLES[sc.style]);
        sized(sys.el, { x: true, y: true, ...(sc.style === 'plain' ? { width: 60, height: 100 } : {}) });
        sys.users = {};
        const User = (name) => ({
            setup() {
                sys.users[name] = sc.container === 'body' && name === 'A' ? lib.useScrollLock() : lib.useScrollLock(sc.container);
                return () => h('i', String(sys.users[name].isLocked.value));
            },
        });
        sys.app = await env.mount({ render: () => h('main', sc.users.map((n) => h(sys[n] ?? (sys[n] = User(n))))) }, {});
        sys.held = new Set();
    },
    enabled(sys) {
        return [...sys.sc.users.flatMap((n) => [`lock ${n}`, `unlock ${n}`]), 'frame'];
    },
    async step(sys, action) {
        const [what, name] = action.split(' ');
        if (what === 'frame') {
            await sys.env.advance(20);
            return;
        }
        await sys.env.act(() => sys.users[name][what]());
        if (sc(sys).container !== '#none') {
            sys.held[what === 'lock' ? 'add' : 'delete'](name);
        }
    },
    verdict(sys) {
        for (const n of sys.sc.users) {
            if (sys.users[n].isLocked.value !== sys.held.has(n)) {
                return `${n} says it ${sys.users[n].isLocked.value ? 'holds' : 'does not hold'} the lock`;
            }
        }
        if (sys.env.pending().length) {
            return null;
        }
        const own = STYLES[sys.sc.style];
        const want = sys.held.size === 0 ? own : { overflow: 'hidden', paddingRight: sys.sc.touch ? own.paddingRight : '8px', paddingBottom: sys.sc.touch ? own.paddingBottom : '8px' };
        const got = styleOf(sys.el);
        return json(got) === json(want) ? null : `with locks held by ${json([...sys.held])} the container has ${json(got)}, expected ${json(want)}`;
    },
};
const sc = (sys) => sys.sc;

// ------------------------------------------------------------------ shadows switched
const shadows = {
    async start(sys) {
        const { env, sc } = sys;
        const { h, shallowReactive, withDirectives } = env.vue;
        const lib = env.instance();
        sys.p = shallowReactive({ value: sc.value === NONE ? undefined : sc.value, text: 0 });
        const size = { beforeMount: (el) => sized(el, { x: false, y: true }) };
        const style = { overflowY: 'auto', containerType: sc.type };
        sys.app = await env.mount({ render: () => h('main', [withDirectives(h('div', { class: 'it', style }, String(sys.p.text)), [[size], [lib.scrollShadow, sys.p.value]])]) }, {});
        sys.el = sys.app.el.querySelector('.it');
        sys.on = sys.p.value !== false;
        sys.fits = false;
    },
    enabled(sys) {
        if (sys.gone) {
            return [];
        }
        return ['value true', 'value false', 'value undefined', 'rerender', ...(sys.on ? [] : ['content ' + (sys.fits ? 'grows' : 'shrinks')]), 'unmount'].filter((a) => a !== 'value ' + sys.p.value);
    },
    async step(sys, action) {
        const { env, p } = sys;
        if (action === 'unmount') {
            await env.act(() => sys.app.unmount());
            sys.gone = true;
            sys.on = false;
        } else if (action === 'rerender') {
            await env.act(() => p.text++);
        } else if (action.startsWith('content')) {
            sys.fits = !sys.fits;
            sized(sys.el, { x: false, y: !sys.fits });
        } else {
            const value = { true: true, false: false, undefined: undefined }[action.slice(6)];
            await env.act(() => (p.value = value));
            sys.on = value !== false && !sys.fits;
        }
    },
    verdict(sys) {
        const got = shadowOf(sys.el);
        const want = shadowWanted(sys.on, sys.sc.type);
        return json(got) === json(want) ? null : `${json(got)}, expected ${json(want)}`;
    },
};

const PARTS = { locks, shadows };

export default {
    id: 'P27',
    world: 'ui',
    method: 'every way an element can overflow is given a shadow; every sequence, up to the depth, of locking and unlocking by two users and of switching, re-rendering and removing a shadow is run; styles are compared with those the element had before and those in force',
    assumptions: ['the container of a lock overflows in both directions', 'an element does not stop or begin to overflow while its shadow is on'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return [
            ...Object.keys(KINDS).map((name) => ({ name, enumerate: true })),
            ...[
                ['body', 'plain', ''],
                ['body', 'styled', ''],
                ['#box', 'styled', ''],
                ['body', 'styled', 'coarse'],
                ['#box', 'plain', 'points'],
                ['#box', 'styled', 'events'],
            ].map(([container, style, touch]) => ({ name: `locks of ${container}, ${style}${touch && ', by touch: ' + touch}`, part: 'locks', users: ['A', 'B'], container, style, touch, depth: deep ? 7 : 5 })),
            { name: 'one lock', part: 'locks', users: ['A'], container: 'body', style: 'styled', touch: '', depth: deep ? 10 : 8 },
            { name: 'locks of nothing', part: 'locks', users: ['A', 'B'], container: '#none', style: 'plain', touch: '', depth: 4 },
            ...product(['', 'inline-size', 'scroll-state'], [NONE, true, false]).map(([type, value]) => ({ name: `a shadow ${value} on '${type}'`, part: 'shadows', type, value, depth: deep ? 7 : 5 })),
        ];
    },

    enumerator(env, sc) {
        const kind = KINDS[sc.name];
        const cases = kind.cases();
        return {
            total: cases.length,
            async evaluate(i) {
                let violation = await kind.run(env, cases[i]);
                violation ??= env.errors.length ? `error: ${env.errors[0]}` : null;
                const what = json(cases[i]);
                await env.reset();
                return { state: json([sc.name, cases[i]]), sample: what, outcome: what, violation: violation && `${what}: ${violation}` };
            },
        };
    },

    async start(env, sc) {
        const sys = { env, sc };
        await PARTS[sc.part].start(sys);
        return sys;
    },
    enabled: (sys) => PARTS[sys.sc.part].enabled(sys),
    step: (sys, action) => PARTS[sys.sc.part].step(sys, action),
    verdict: (sys) => (sys.env.errors.length ? `error: ${sys.env.errors[0]}` : PARTS[sys.sc.part].verdict(sys)),
    state: (sys) => json([sys.sc.name, sys.held && [...sys.held], sys.env.pending().length, sys.on, sys.fits, sys.gone, sys.p, styleOf(sys.el)]),
};
