// The layout: a container keeps clear of the header, footer and pushing drawers of its layout, drawers of header and footer.
import { all, json } from '../lib/kit.mjs';

const AWAY = ['absolute', 'fixed', 'sticky'];
const POSITIONS = ['fixed', 'sticky', 'absolute', 'relative', 'static', 'unset'];
const TOKENS = { xs: '12%', sm: '20%', md: '40%', lg: '60%', xl: '80%' };
const SIDES = ['left', 'right', 'top', 'bottom'];

const BAR = { shown: true, layout: true, position: 'fixed', height: '10px' };
const DRAWER = { shown: true, layout: true, open: true, push: true, size: '30px' };

const SCENARIOS = (deep) => [
    ...['header', 'footer'].map((bar) => ({
        name: `a ${bar}`,
        parts: { [bar]: BAR, left: { ...DRAWER, push: false, placement: 'left' }, top: { ...DRAWER, placement: bar === 'header' ? 'top' : 'bottom' } },
        acts: [...POSITIONS.map((v) => `${bar}.position=${v}`), `${bar}.height=unset`, `${bar}.height=5rem`, `${bar}.height=set`, `${bar}.shown=flip`, `${bar}.layout=flip`, 'container.layout=flip', 'container.shown=flip'],
        depth: deep ? 4 : 3,
    })),
    ...SIDES.map((side) => ({
        name: `a drawer on the ${side}`,
        parts: { header: BAR, footer: { ...BAR, position: 'sticky', height: 'unset' }, one: { ...DRAWER, placement: side } },
        acts: ['one.open=flip', 'one.push=flip', 'one.layout=flip', 'one.shown=flip', 'one.size=unset', 'one.size=xl', 'one.size=7', ...SIDES.filter((s) => s !== side).map((s) => `one.placement=${s}`), 'header.shown=flip'],
        depth: deep ? 4 : 3,
    })),
    {
        name: 'everything at once',
        parts: { header: BAR, footer: { ...BAR, height: '20px' }, ...Object.fromEntries(SIDES.map((s, i) => [s, { ...DRAWER, placement: s, size: `${i + 1}em` }])) },
        acts: ['header.shown=flip', 'footer.shown=flip', ...SIDES.flatMap((s) => [`${s}.open=flip`, `${s}.shown=flip`])],
        depth: deep ? 4 : 3,
    },
    { name: 'sizes by name', parts: { one: { ...DRAWER, placement: 'left' } }, acts: [...Object.keys(TOKENS), 'unset', '12', '50%', '3rem'].map((v) => `one.size=${v}`), depth: 2 },
    { name: 'behind components of the application', wrapped: true, parts: { header: BAR, footer: BAR, left: { ...DRAWER, placement: 'left' } }, acts: ['header.shown=flip', 'footer.layout=flip', 'left.open=flip', 'left.layout=flip', 'header.height=5rem', 'container.layout=flip'], depth: deep ? 5 : 4 },
    ...['container', 'container opted out', 'footer', 'header opted out', 'drawer', 'drawer opted out'].map((inside) => ({
        name: `inside another part of the layout, a ${inside}`,
        inside,
        parts: { header: BAR, left: { ...DRAWER, placement: 'left' } },
        acts: ['header.shown=flip', 'left.open=flip', 'left.layout=flip', 'header.height=5rem', 'container.layout=flip'],
        depth: deep ? 5 : 4,
    })),
    { name: 'a layout in a layout', nested: true, parts: { header: BAR, footer: BAR, left: { ...DRAWER, placement: 'left' } }, acts: ['header.shown=flip', 'footer.shown=flip', 'left.open=flip', 'left.size=xl', 'header.height=5rem'], depth: deep ? 5 : 4 },
    { name: 'without a layout', bare: true, parts: { header: BAR, footer: BAR, left: { ...DRAWER, placement: 'left' }, top: { ...DRAWER, placement: 'top' } }, acts: ['header.shown=flip', 'left.open=flip', 'header.layout=flip', 'container.layout=flip'], depth: 3 },
    { name: 'one part in place of another', swap: true, parts: { header: BAR, footer: BAR, left: { ...DRAWER, placement: 'left' } }, acts: ['header.key=flip', 'footer.key=flip', 'left.key=flip', 'header.height=5rem', 'left.size=xl', 'left.open=flip', 'header.position=relative'], depth: deep ? 5 : 4 },
    { name: 'two drawers on one side', taking: ['one', 'two'], parts: { one: { ...DRAWER, placement: 'left', open: false }, two: { ...DRAWER, placement: 'left', size: '40px', open: false } }, acts: ['one.open=flip', 'two.open=flip', 'one.shown=flip', 'two.shown=flip'], depth: deep ? 6 : 5 },
];

const FLIPS = ['shown', 'layout', 'open', 'push', 'key'];

function want(sys) {
    const { m, sc } = sys;
    const counts = (p) => p && p.shown && p.layout && !sc.bare;
    const bar = (p) => (counts(p) && AWAY.includes(p.position) ? { unset: '3rem', set: '9px' }[p.height] ?? p.height : '');
    const head = bar(m.header);
    const foot = bar(m.footer);
    const drawers = Object.entries(m).filter(([, p]) => p.placement);
    const size = (p) => (p.size === 'unset' ? TOKENS.sm : (TOKENS[p.size] ?? (/^\d+$/.test(p.size) ? p.size + 'px' : p.size)));
    const pushed = (side) => drawers.filter(([, p]) => counts(p) && p.placement === side && p.open && p.push).map(([, p]) => size(p))[0] ?? '';
    // both sides in the notation of the browser's style object
    const add = (a, b) => {
        const probe = document.createElement('div');
        probe.style.paddingTop = a && b ? `calc(${a} + ${b})` : a || b;
        return probe.style.paddingTop;
    };
    const none = !m.container.layout || sc.bare || sc.inside;
    return {
        container: m.container.shown ? (none ? ['', '', '', ''] : [add(head, pushed('top')), pushed('right'), add(foot, pushed('bottom')), pushed('left')]) : null,
        drawers: Object.fromEntries(
            drawers.map(([name, p]) => [
                name,
                !p.shown
                    ? null
                    : {
                          open: p.open,
                          size: size(p),
                          at: !counts(p) || sc.inside ? ['', '', '', ''] : p.placement === 'top' ? [head, '', '', ''] : p.placement === 'bottom' ? ['', foot, '', ''] : ['', '', head, foot],
                      },
            ]),
        ),
    };
}

function seen(sys) {
    const el = sys.app.el;
    const c = el.querySelector('.the-container');
    const pick = (e, keys) => keys.map((k) => e.style[k]);
    return {
        container: c ? pick(c, ['paddingTop', 'paddingRight', 'paddingBottom', 'paddingLeft']) : null,
        drawers: Object.fromEntries(
            Object.entries(sys.m)
                .filter(([, p]) => p.placement)
                .map(([name]) => {
                    const d = el.querySelector('.drawer-' + name);
                    const content = d?.querySelector('.vs-drawer-content');
                    return [name, d ? { open: d.style.display !== 'none', size: d.style.getPropertyValue('--vs-drawer-size'), at: pick(content, ['top', 'bottom', 'paddingTop', 'paddingBottom']) } : null];
                }),
        ),
    };
}

export default {
    id: 'P24',
    world: 'ui',
    method: 'every sequence, up to the depth, of showing, hiding, replacing, opening, resizing, repositioning and opting in or out the header, footer, drawers and container of a real layout; the room kept free is compared after every step with the room the parts then take',
    assumptions: ['one header, one footer and one open drawer per side at a time'],

    scenarios(tier) {
        return SCENARIOS(tier === 'thorough');
    },

    async start(env, sc) {
        const { h, shallowReactive, defineComponent } = env.vue;
        const lib = env.instance();
        const sys = { env, sc };
        const m = (sys.m = JSON.parse(json({ ...sc.parts, container: { shown: true, layout: true } })));
        const p = (sys.p = shallowReactive({ m: JSON.parse(json(m)) }));
        const Wrapped = defineComponent({ setup: (props, { slots }) => () => h('section', slots.default()) });
        const put = (vnode) => (sc.wrapped ? h(Wrapped, null, () => vnode) : vnode);
        const or = (v) => (v === 'unset' ? undefined : v);
        const bar = (comp, q) =>
            q?.shown ? put(h(comp, { key: comp.name + (q.key ?? ''), layout: q.layout, position: or(q.position), height: q.height === 'set' ? undefined : or(q.height), styleSet: q.height === 'set' ? { height: '9px' } : undefined }, () => 'bar')) : null;
        const drawer = (name, q) =>
            q.shown
                ? put(h(lib.VsDrawer, { key: name + (q.key ?? ''), class: 'drawer-' + name, layout: q.layout, modelValue: q.open, pushContainer: q.push, placement: q.placement, size: or(/^\d+$/.test(q.size) ? Number(q.size) : q.size) }, () => name))
                : null;
        const container = (q) => (q.shown ? put(h(lib.VsContainer, { class: 'the-container', layout: q.layout }, () => 'text')) : null);
        const body = (mm) => [
            bar(lib.VsHeader, mm.header),
            ...Object.entries(mm)
                .filter(([, q]) => q.placement)
                .map(([name, q]) => drawer(name, q)),
            sc.nested ? h(lib.VsLayout, null, () => [h(lib.VsHeader, { layout: true, position: 'fixed', height: '77px' }), h(lib.VsDrawer, { layout: true, pushContainer: true, modelValue: true, placement: 'right', size: '78px' }), h(lib.VsContainer, { layout: true, class: 'inner' })]) : null,
            container(mm.container),
            bar(lib.VsFooter, mm.footer),
        ];
        sys.app = await env.mount(
            {
                render() {
                    const mm = p.m;
                    if (sc.bare) {
                        return h('main', body(mm));
                    }
                    if (sc.inside) {
                        // the container and the drawer sit in another part of the layout: they are no part of the layout
                        return h('main', [
                            h(lib.VsLayout, null, () => [
                                bar(lib.VsHeader, mm.header),
                                h(lib.VsContainer, { class: 'outer', layout: true }, () => 'text'),
                                h(
                                    { container: lib.VsContainer, header: lib.VsHeader, footer: lib.VsFooter, drawer: lib.VsDrawer }[sc.inside.split(' ')[0]],
                                    { layout: !sc.inside.includes('out'), ...(sc.inside.startsWith('drawer') ? { modelValue: true, placement: 'right' } : { position: 'relative' }) },
                                    () => [container(mm.container), drawer('left', mm.left)],
                                ),
                            ]),
                        ]);
                    }
                    return h('main', [h(lib.VsLayout, null, () => body(mm))]);
                },
            },
            { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] },
        );
        return sys;
    },

    enabled(sys) {
        const { m, sc } = sys;
        return sc.acts.filter((a) => {
            const [, part, key, value] = /(\w+)\.(\w+)=(.*)/.exec(a);
            if (!m[part].shown && key !== 'shown') {
                return false;
            }
            if (sc.taking && key !== 'key' && sc.taking.some((o) => o !== part && m[o].open)) {
                return false;
            }
            return value === 'flip' || m[part][key] !== value;
        });
    },

    async step(sys, action) {
        const { env, m, p } = sys;
        const [, part, key, value] = /(\w+)\.(\w+)=(.*)/.exec(action);
        m[part][key] = FLIPS.includes(key) ? !m[part][key] : value;
        await env.act(() => (p.m = JSON.parse(json(m))));
        await env.advance(1000);
    },

    verdict(sys) {
        if (sys.env.errors.length) {
            return `error: ${sys.env.errors[0]}`;
        }
        const a = seen(sys);
        const b = want(sys);
        if (sys.sc.inside) {
            const outer = sys.app.el.querySelector('.outer').style;
            const head = sys.m.header.shown ? { ...sys.m.header }.height : '';
            if (outer.paddingTop !== head || outer.paddingLeft !== '') {
                return `the outer container keeps ${json([outer.paddingTop, outer.paddingLeft])} free, expected ${json([head, ''])}`;
            }
        }
        if (sys.sc.nested) {
            const inner = sys.app.el.querySelector('.inner').style;
            const got = [inner.paddingTop, inner.paddingRight, inner.paddingBottom, inner.paddingLeft];
            if (json(got) !== json(['77px', '78px', '', ''])) {
                return `the container of the inner layout keeps ${json(got)} free`;
            }
        }
        return json(a) === json(b) ? null : `${json(a)}, expected ${json(b)}`;
    },

    state: (sys) => json([sys.sc.name, sys.m]),
};
