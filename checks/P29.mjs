// Keyboard focus: what holds the focus in an overlay, what Tab reaches in it, and where the focus goes afterwards.
import { all, json, key } from '../lib/kit.mjs';

// what an overlay contains at the start; a: anchor, b: button, i: text field, d: focusable box, n: not reachable by Tab
const KINDS = { b: ['button', {}], i: ['input', {}], a: ['a', { href: '#' }], d: ['div', { tabindex: 0 }], n: ['button', { tabindex: -1 }], s: ['select', {}], t: ['textarea', {}] };

const SCENARIOS = [
    { name: 'a modal', overlays: ['modal:bi'], changes: true, depth: 4, deep: 5 },
    { name: 'a modal of boxes, links and unreachable buttons', overlays: ['modal:ndan'], changes: true, depth: 4, deep: 5 },
    { name: 'a modal of choices and texts', overlays: ['modal:st'], changes: true, depth: 4, deep: 5 },
    { name: 'a modal with nothing to focus', overlays: ['modal:'], changes: true, depth: 4, deep: 6 },
    { name: 'a modal that does not lock the focus', overlays: ['free:bi'], changes: true, depth: 4, deep: 5 },
    { name: 'a drawer', overlays: ['drawer:bi'], changes: true, lock: true, depth: 4, deep: 5 },
    { name: 'a drawer open from the start', overlays: ['drawer:bi'], initially: true, lock: true, depth: 4, deep: 6 },
    { name: 'a trap of its own', overlays: ['trap:bi'], changes: true, lock: true, depth: 4, deep: 5 },
    { name: 'two modals', overlays: ['modal:bi', 'modal:b'], depth: 5, deep: 6 },
    { name: 'a modal and a drawer', overlays: ['modal:b', 'drawer:bi'], depth: 5, deep: 6 },
    { name: 'three modals', overlays: ['modal:b', 'modal:i', 'free:b'], depth: 4, deep: 6 },
];

const hidden = (el) => {
    for (let n = el; n && n.style; n = n.parentElement) {
        if (n.style.display === 'none') {
            return true;
        }
    }
    return false;
};
const leaving = (el) => !!el.closest('.modal-leave-active, .drawer-leave-active');
const focusable = (el) => el.isConnected && !el.disabled && !hidden(el);

// what Tab can reach, in document order
const stops = (root) => all(root, 'button, input, a[href], select, textarea, [tabindex]').filter((el) => el.tabIndex >= 0 && focusable(el) && !leaving(el));

// the browser does not focus what is hidden or disabled
function obeyBrowser() {
    const proto = HTMLElement.prototype;
    if (!proto.focus.real) {
        const real = proto.focus;
        proto.focus = function (...args) {
            return focusable(this) ? real.apply(this, args) : undefined;
        };
        proto.focus.real = real;
    }
}

// the user presses Tab: the page may take the key, else the browser moves on
function pressTab(shift) {
    const at = document.activeElement;
    const e = key(at, 'Tab', { shiftKey: shift });
    if (e.defaultPrevented) {
        return;
    }
    const list = stops(document);
    const next = (shift ? list.reverse() : list).find((el) => at === document.body || at.compareDocumentPosition(el) & (shift ? 2 : 4));
    next ? next.focus() : at.blur();
}

const nameOf = (el) => (el === document.body ? 'the page' : el.dataset?.name || 'inside ' + (ownerOf(el) || el.tagName));
function ownerOf(el) {
    const root = el.closest('.vs-modal-node, .vs-drawer, .vs-focus-trap');
    return root?.querySelector('[data-overlay]')?.dataset.overlay || null;
}

export default {
    id: 'P29',
    world: 'ui',
    method: 'every sequence, up to the depth, of Tab, Shift+Tab, opening, closing, pointing at an entry, and entries that appear, disappear, hide, show, are disabled or enabled, on real modals, drawers and traps; after every step the focused element is compared with a reference model',
    assumptions: [
        'Tab moves to the next enabled, shown element in document order unless the page takes the key; hidden and disabled elements do not take the focus (the browser)',
        'the element that has the focus is not itself removed, hidden or disabled; entries are hidden by their own style',
        'traps are not nested in one another',
    ],

    scenarios(tier) {
        return SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
    },

    async start(env, sc) {
        const { h, reactive } = env.vue;
        const lib = env.instance();
        obeyBrowser();
        const overlays = sc.overlays.map((spec, n) => {
            const [kind, entries] = spec.split(':');
            const name = 'ABC'[n];
            return reactive({ name, kind, open: !!sc.initially, lock: kind !== 'free', added: 0, entries: [...entries].map((k, i) => ({ k, name: name + i, off: false, hidden: false })) });
        });
        const sys = { env, sc, lib, overlays, stack: sc.initially ? [overlays[0]] : [], from: {}, complaint: null };
        const content = (o) => () =>
            h(
                'div',
                { 'data-overlay': o.name },
                o.entries.map((e) => h(KINDS[e.k][0], { key: e.name, ...KINDS[e.k][1], 'data-name': e.name, disabled: e.off || undefined, style: e.hidden ? { display: 'none' } : {} })),
            );
        sys.content = content;
        sys.app = env.mount(
            {
                render: () =>
                    h('div', [
                        h('button', { 'data-name': 'first' }),
                        ...overlays.map((o) =>
                            o.kind === 'drawer'
                                ? h(lib.VsDrawer, { key: o.name, id: o.name, focusLock: o.lock, modelValue: o.open, 'onUpdate:modelValue': (v) => (o.open = v) }, { default: content(o) })
                                : o.kind === 'trap' && o.open
                                  ? h(lib.VsFocusTrap, { key: o.name, disabled: !o.lock }, { default: () => h('section', [content(o)()]) })
                                  : null,
                        ),
                        h('button', { 'data-name': 'last' }),
                    ]),
            },
            { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] },
        );
        await env.flush();
        await env.advance(1000);
        sys.$vs = lib.useVlossom();
        if (!sc.initially && document.activeElement !== document.body) {
            sys.complaint = 'the focus was taken although nothing is open';
        }
        sys.at = document.activeElement;
        sc.initially && (sys.from.A = document.body);
        return sys;
    },

    enabled(sys) {
        const { sc } = sys;
        const out = ['Tab', 'Shift+Tab'];
        const top = sys.stack.at(-1);
        if (!top) {
            out.push('point last');
        }
        for (const o of sys.overlays) {
            out.push((o.open ? 'close ' : 'open ') + o.name);
        }
        if (top) {
            sc.lock && out.push('lock ' + top.name);
            if (sc.changes) {
                top.entries.forEach((e, i) => {
                    if (sys.at?.dataset?.name !== e.name && e.k !== 'n') {
                        (e.k === 'a' || e.k === 'd') || out.push('disable ' + i);
                        out.push('hide ' + i);
                        i === top.entries.length - 1 && out.push('remove ' + i);
                    }
                    e.k === 'n' && !e.hidden && !e.off && out.push('point ' + e.name);
                });
                top.added || out.push('add');
            }
        }
        return out;
    },

    async step(sys, action) {
        const { env, $vs } = sys;
        const [kind, arg] = action.split(' ');
        const top = sys.stack.at(-1);
        const at = document.activeElement;
        const rootOf = (o) => document.querySelector(`[data-overlay="${o.name}"]`);
        const entry = top && top.entries[arg];
        sys.want = at; // expected focus: an element, {in: overlay} or null (not determined)
        if (kind === 'Tab' || kind === 'Shift+Tab') {
            const shift = kind !== 'Tab';
            const owner = sys.stack.find((o) => o.name === ownerOf(at));
            const list = owner?.lock ? stops(rootOf(owner)) : stops(document);
            const order = shift ? [...list].reverse() : list;
            const beyond = order.find((el) => at === document.body || at.compareDocumentPosition(el) & (shift ? 2 : 4));
            if (owner?.lock) {
                // from an entry that Tab does not reach the browser goes on by position
                sys.want = beyond || order[0] || at;
            } else {
                sys.want = beyond || null;
            }
            await env.act(() => pressTab(shift));
        } else if (kind === 'point') {
            const el = document.querySelector(`[data-name="${arg}"]`);
            sys.want = el;
            await env.act(() => el.focus());
        } else if (kind === 'open') {
            const o = sys.overlays.find((x) => x.name === arg);
            sys.from[arg] = at;
            await env.act(() => {
                o.open = true;
                if (o.kind === 'modal' || o.kind === 'free') {
                    $vs.modal.open({ render: sys.content(o) }, { id: o.name, focusLock: o.lock, callbacks: { close: () => (o.open = false) } });
                }
            });
            sys.stack.push(o);
            sys.want = { in: o };
        } else if (kind === 'close') {
            const o = sys.overlays.find((x) => x.name === arg);
            const had = ownerOf(at) === arg || at === document.body;
            await env.act(() => (o.kind === 'modal' || o.kind === 'free' ? $vs.modal.closeWithId('body', o.name) : (o.open = false)));
            o.open = false;
            sys.stack = sys.stack.filter((x) => x !== o);
            await env.advance(1000);
            const before = sys.from[arg];
            sys.want = !had ? at : before && before !== document.body && focusable(before) ? before : null;
            o.entries.forEach((e) => (e.off = e.hidden = false));
        } else if (kind === 'lock') {
            await env.act(() => (top.lock = !top.lock));
        } else if (kind === 'disable') {
            await env.act(() => (entry.off = !entry.off));
        } else if (kind === 'hide') {
            await env.act(() => (entry.hidden = !entry.hidden));
        } else if (kind === 'remove') {
            await env.act(() => top.entries.splice(arg, 1));
        } else if (kind === 'add') {
            await env.act(() => top.entries.push({ k: 'b', name: top.name + 'new' + ++top.added, off: false, hidden: false }));
        }
        await env.advance(1000);
        document.activeElement !== document.body && !focusable(document.activeElement) && document.activeElement.blur(); // the browser
        sys.at = document.activeElement;
    },

    verdict(sys) {
        if (sys.complaint) {
            return sys.complaint;
        }
        if (sys.env.errors.length) {
            return 'an error was thrown: ' + sys.env.errors[0];
        }
        const { at, want } = sys;
        if (want === undefined) {
            return null;
        }
        if (want?.in) {
            return ownerOf(at) === want.in.name ? null : `the focus is at ${nameOf(at)}, expected in ${want.in.name}, which was just opened`;
        }
        if (want && want !== at) {
            return `the focus is at ${nameOf(at)}, expected at ${nameOf(want)}`;
        }
        return null;
    },

    state(sys) {
        return json([sys.stack.map((o) => [o.name, o.lock, o.entries]), nameOf(sys.at), Object.entries(sys.from).map(([k, el]) => [k, nameOf(el)])]);
    },
};
