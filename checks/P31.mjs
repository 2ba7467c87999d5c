// Content that unfolds, is copied, is loaded or is searched for, against a reference of what was last asked for.
import { deferred } from '../lib/ui-env.mjs';
import { all, click, json, key, text, typeInto } from '../lib/kit.mjs';

const SCENARIOS = [
    { kind: 'fold', name: 'a fold with a bound model', bound: true, depth: 4, deep: 6 },
    { kind: 'fold', name: 'a fold without a model', depth: 4, deep: 6 },
    { kind: 'fold', name: 'a fold open at first', open: true, depth: 3, deep: 5 },
    { kind: 'fold', name: 'a fold with a bound model, open at first', bound: true, model: true, depth: 3, deep: 5 },
    { kind: 'copy', name: 'copying while the text changes', texts: ['one', 'two', ''], depth: 4, deep: 6 },
    { kind: 'copy', name: 'copying again and again', texts: ['one'], waits: [1000, 999, 1], depth: 5, deep: 7 },
    { kind: 'link', name: 'links', depth: 2, deep: 3 },
    { kind: 'image', name: 'an image without a substitute', srcs: ['a', 'b'], backs: ['', 'f'], depth: 5, deep: 7 },
    { kind: 'image', name: 'an image with a substitute', srcs: ['a', 'b'], back: 'f', backs: ['f', 'g', ''], depth: 5, deep: 6 },
    { kind: 'image', name: 'an image loaded when seen', srcs: ['a', 'b'], back: 'f', backs: ['f'], lazy: true, depth: 4, deep: 6 },
    { kind: 'image', name: 'an image without a place holder', srcs: ['a', 'b'], backs: [''], bare: true, depth: 4, deep: 6 },
    { kind: 'search', name: 'a search field', words: ['a', 'A.', '('], writes: ['b', ''], turns: true, depth: 3, deep: 4 },
    { kind: 'search', name: 'a search field with pauses', words: ['a', 'ab'], waits: [399, 1, 400], clear: true, depth: 4, deep: 6 },
    { kind: 'search', name: 'a search field with bound modes', words: ['A.'], modes: true, turns: true, depth: 4, deep: 5 },
];
const SAMPLES = ['a', 'A', 'ab', 'A.', 'b', '(', ''];

const KINDS = {
    fold: {
        start(sys) {
            const { env, sc, p, lib } = sys;
            const { h } = env.vue;
            Object.assign(p, { model: !!sc.model, disabled: false });
            sys.m = { open: !!(sc.open || sc.model), disabled: false };
            return () =>
                h(
                    lib.VsAccordion,
                    {
                        ref: 'it',
                        disabled: p.disabled,
                        ...(sc.open ? { open: true } : {}),
                        ...(sc.bound ? { modelValue: p.model } : {}),
                        'onUpdate:modelValue': (v) => {
                            sys.heard.push('model ' + v);
                            sc.bound && (p.model = v);
                        },
                        onToggle: (v) => sys.heard.push('toggle ' + v),
                    },
                    { title: () => h('b', 'title'), default: () => h('div', { class: 'inside' }, [h('input'), h('textarea')]) },
                );
        },
        enabled: (sys) => [
            'click', 'Enter', 'Space', 'Tab', 'method', 'disabled',
            ...(sys.sc.bound ? ['write true', 'write false'] : []),
            ...(sys.m.open ? ['inside Enter', 'inside Space'] : []),
        ],
        async step(sys, kind, arg) {
            const { env, m, p, el } = sys;
            const box = el.querySelector('.vs-accordion');
            const was = m.open;
            let pressed;
            if (kind === 'click') {
                await env.act(() => click(el.querySelector('.vs-accordion-title b')));
                m.open = m.disabled ? was : !was;
            } else if (kind === 'Enter' || kind === 'Space' || kind === 'Tab') {
                await env.act(() => void (pressed = key(box, kind)));
                m.open = m.disabled || kind === 'Tab' ? was : !was;
                if (kind === 'Tab' && pressed.defaultPrevented) {
                    sys.complaint = 'Tab was kept from moving on';
                }
            } else if (kind === 'inside') {
                const field = el.querySelector(arg === 'Enter' ? '.inside textarea' : '.inside input');
                await env.act(() => void (pressed = key(field, arg)));
                if (pressed.defaultPrevented) {
                    sys.complaint = `${arg} pressed in a field inside was kept from it`;
                }
            } else if (kind === 'method') {
                await env.act(() => sys.vm.$refs.it.toggle());
                m.open = m.disabled ? was : !was;
            } else if (kind === 'disabled') {
                m.disabled = !m.disabled;
                await env.act(() => (p.disabled = m.disabled));
            } else if (kind === 'write') {
                m.open = arg === 'true';
                await env.act(() => (p.model = m.open));
            }
            was !== m.open && sys.expected.push('model ' + m.open, 'toggle ' + m.open);
            // the browser ends the transitions
            await env.act(() => all(el, '.vs-expandable-wrapper').forEach((x) => x.dispatchEvent(new Event('transitionend'))));
        },
        verdict(sys) {
            const { m, p, el, sc } = sys;
            const shown = !!el.querySelector('.inside');
            if (shown !== m.open) {
                return `the content is ${shown ? '' : 'not '}shown, expected ${m.open ? 'open' : 'folded'}`;
            }
            const box = el.querySelector('.vs-accordion');
            if (box.classList.contains('vs-accordion-open') !== m.open) {
                return `the fold looks ${m.open ? 'closed' : 'open'} although it is not`;
            }
            if (box.getAttribute('tabindex') !== (m.disabled ? '-1' : '0') || box.classList.contains('vs-disabled') !== m.disabled) {
                return `the fold ${m.disabled ? 'can' : 'cannot'} be reached by keyboard or looks so`;
            }
            return sc.bound && p.model !== m.open ? `the model is ${p.model}, expected ${m.open}` : null;
        },
    },

    copy: {
        start(sys) {
            const { env, p, lib, sc } = sys;
            const { h } = env.vue;
            Object.defineProperty(HTMLElement.prototype, 'innerText', { configurable: true, get() { return this.textContent; } });
            p.text = sc.texts[0];
            sys.m = { mark: 0, text: sc.texts[0] };
            sys.writes = [];
            env.clipboard = (t) => {
                const d = deferred();
                d.text = t;
                sys.writes.push(d);
                return d.promise;
            };
            return () => h(lib.VsTextWrap, { copy: true, onCopied: (t) => sys.heard.push('copied ' + t) }, () => p.text);
        },
        enabled: (sys) => [
            'copy',
            ...sys.writes.flatMap((d, i) => (d.settled ? [] : ['done ' + i, 'fail ' + i])),
            ...sys.sc.texts.filter((t) => t !== sys.m.text).map((t) => 'text ' + t),
            ...(sys.sc.waits || [2000]).map((n) => 'wait ' + n),
        ],
        async step(sys, kind, arg) {
            const { env, m, p, el } = sys;
            const n = sys.writes.length;
            if (kind === 'copy') {
                await env.act(() => click(el.querySelector('.vs-copy-button')));
                const now = sys.writes.slice(n).map((d) => d.text);
                if (json(now) !== json(m.text ? [m.text] : [])) {
                    sys.complaint = `${json(now)} was copied while "${m.text}" was shown`;
                }
                return;
            }
            if (kind === 'done' || kind === 'fail') {
                const d = sys.writes[arg];
                d.settled = true;
                await env.act(() => (kind === 'done' ? d.resolve() : d.reject(new Error('no'))));
                if (kind === 'done') {
                    m.mark = env.clock.now + 2000;
                    sys.expected.push('copied ' + d.text);
                }
            } else if (kind === 'text') {
                m.text = arg;
                await env.act(() => (p.text = arg));
            } else if (kind === 'wait') {
                await env.advance(Number(arg));
            }
            if (sys.writes.length !== n) {
                sys.complaint = 'something was copied without being asked';
            }
        },
        verdict(sys) {
            const marked = !!sys.el.querySelector('.vs-copy-button .copied');
            const want = sys.env.clock.now < sys.m.mark;
            return marked === want ? null : `the button is ${marked ? '' : 'not '}marked as copied, ${want ? 'less' : 'more'} than 2 s after the last copy`;
        },
    },

    link: {
        start(sys) {
            const { env, p, lib } = sys;
            const { h } = env.vue;
            p.link = '';
            sys.m = { link: '' };
            return () => h(lib.VsTextWrap, { link: p.link }, () => 'text');
        },
        enabled: (sys) => [...['', 'https://a.b/c', 'http://a.b', 'javascript:alert(1)', 'ftp://a.b', 'a.b', 'data:text/html,x'].map((l) => 'link ' + l), ...(sys.m.link ? ['open'] : [])],
        async step(sys, kind, arg) {
            const { env, m, p, el } = sys;
            env.windowOpen.length = 0;
            sys.want = [];
            if (kind === 'link') {
                m.link = arg;
                await env.act(() => (p.link = arg));
                if (!!el.querySelector('.vs-link-button') !== !!arg) {
                    sys.complaint = `a link button is ${arg ? 'missing' : 'shown without a link'}`;
                }
            } else {
                await env.act(() => click(el.querySelector('.vs-link-button')));
                sys.want = /^https?:/.test(m.link) ? [m.link] : [];
            }
        },
        verdict(sys) {
            const opened = sys.env.windowOpen.map((x) => (Array.isArray(x) ? x[0] : x.url || x));
            return json(opened) === json(sys.want || []) ? null : `opened ${json(opened)}, expected ${json(sys.want)}`;
        },
    },

    image: {
        start(sys) {
            const { env, p, lib, sc } = sys;
            const { h } = env.vue;
            Object.assign(p, { src: sc.srcs[0], back: sc.back || '' });
            // stage: 'src' | 'back' | 'none'; outcome of the current stage: null | 'loaded'
            sys.m = { src: p.src, back: p.back, seen: !sc.lazy, stage: 'src', outcome: null, first: true };
            return () => h(lib.VsImage, { src: p.src, fallback: p.back, lazy: !!sc.lazy, noSkeleton: !!sc.bare, alt: 'words', onError: () => sys.heard.push('error') });
        },
        enabled: (sys) => {
            const { m, sc } = sys;
            return [
                ...sc.srcs.filter((s) => s !== m.src).map((s) => 'src ' + s),
                ...sc.backs.filter((s) => s !== m.back).map((s) => 'back ' + s),
                ...(m.seen && m.stage !== 'none' && !m.outcome ? ['load', 'fail'] : []),
                ...(m.seen ? [] : ['seen', 'unseen']),
            ];
        },
        async step(sys, kind, arg) {
            const { env, m, p, el } = sys;
            const img = el.querySelector('img');
            if (kind === 'src') {
                m.src = arg;
                m.stage = 'src';
                m.outcome = null;
                await env.act(() => (p.src = arg));
            } else if (kind === 'back') {
                m.back = arg;
                if (m.stage !== 'src') {
                    // the source has failed: the new substitute is tried, or there is none
                    m.stage = arg ? 'back' : 'none';
                    m.outcome = null;
                }
                await env.act(() => (p.back = arg));
            } else if (kind === 'load') {
                m.outcome = 'loaded';
                m.first = false;
                await env.act(() => img.dispatchEvent(new Event('load')));
            } else if (kind === 'fail') {
                m.stage = m.stage === 'src' && m.back ? 'back' : 'none';
                m.first = false;
                sys.expected.push('error');
                await env.act(() => img.dispatchEvent(new Event('error')));
            } else {
                await env.act(() => [...env.observers.intersection].forEach((o) => [...o.targets].forEach((t) => o.cb([{ target: t, isIntersecting: kind === 'seen' }], o))));
                m.seen = kind === 'seen';
            }
        },
        verdict(sys) {
            const { m, el, sc } = sys;
            const img = el.querySelector('img');
            const src = img.getAttribute('src') || '';
            const want = !m.seen ? '' : m.stage === 'back' ? m.back : m.src;
            if (m.stage !== 'none' && src !== want) {
                return `the image loads "${src}", expected "${want}"`;
            }
            const icon = !!el.querySelector('.vs-image-fallback');
            if (icon !== (m.stage === 'none')) {
                return `the sign for a missing image is ${icon ? '' : 'not '}shown`;
            }
            const hidden = img.classList.contains('vs-hidden');
            if ((m.outcome === 'loaded' && hidden) || ((m.stage === 'none' || m.first) && !hidden)) {
                return `the image is ${hidden ? '' : 'not '}hidden`;
            }
            const holder = !!el.querySelector('.vs-skeleton');
            if (m.first ? holder !== !sc.bare : holder && (m.outcome || m.stage === 'none')) {
                return `the place holder is ${holder ? '' : 'not '}shown`;
            }
            return img.getAttribute('alt') === 'words' ? null : 'the image lost its words';
        },
    },

    search: {
        start(sys) {
            const { env, p, lib, sc } = sys;
            const { h } = env.vue;
            Object.assign(p, { model: '', exact: false, regex: false });
            sys.m = { words: '', exact: false, regex: false, due: null, bound: '' };
            return () =>
                h(lib.VsSearchInput, {
                    ref: 'it',
                    useCaseSensitive: true,
                    useRegex: true,
                    modelValue: p.model,
                    'onUpdate:modelValue': (v) => (p.model = v),
                    onSearch: (v) => sys.heard.push('search ' + v),
                    ...(sc.modes
                        ? { caseSensitive: p.exact, regex: p.regex, 'onUpdate:caseSensitive': (v) => (p.exact = v), 'onUpdate:regex': (v) => (p.regex = v) }
                        : {}),
                });
        },
        enabled: (sys) => {
            const { m, sc } = sys;
            return [
                ...sc.words.filter((w) => w !== m.words).map((w) => 'type ' + w),
                ...(m.words ? ['type '] : []),
                ...(sc.writes || []).filter((w) => w !== sys.p.model).map((w) => 'write ' + w),
                ...(sc.turns ? ['exact', 'regex'] : []),
                ...(sc.modes ? ['set exact', 'set regex'] : []),
                ...(sc.clear && m.words ? ['clear'] : []),
                ...(sc.waits || [400]).map((n) => 'wait ' + n),
            ];
        },
        async step(sys, kind, arg) {
            const { env, m, p, el } = sys;
            const armed = () => (m.due = env.clock.now + 400);
            if (kind === 'type') {
                await env.act(() => typeInto(el.querySelector('input'), arg));
                m.words = arg;
                armed();
            } else if (kind === 'write') {
                m.words !== arg && armed();
                m.words = arg;
                await env.act(() => (p.model = arg));
            } else if (kind === 'exact' || kind === 'regex') {
                const b = all(el, '.vs-search-input-toggle')[kind === 'exact' ? 0 : 1];
                await env.act(() => click(b));
                m[kind] = !m[kind];
                armed();
            } else if (kind === 'set') {
                m[arg] = !m[arg];
                armed();
                await env.act(() => (p[arg] = m[arg]));
            } else if (kind === 'clear') {
                await env.act(() => sys.vm.$refs.it.clear());
                m.words = '';
                armed();
            } else {
                const until = env.clock.now + Number(arg);
                await env.advance(Number(arg));
                if (m.due !== null && m.due <= until) {
                    sys.expected.push('search ' + m.words);
                    m.due = null;
                    m.bound = m.words;
                }
            }
        },
        verdict(sys) {
            const { m, p, el, sc } = sys;
            if (el.querySelector('input').value !== m.words) {
                return `the field shows "${el.querySelector('input').value}", expected "${m.words}"`;
            }
            const low = (x) => (m.exact ? x : x.toLowerCase());
            const hit = (t) => {
                if (!m.words) {
                    return true;
                }
                if (m.regex) {
                    try {
                        return new RegExp(m.words, m.exact ? '' : 'i').test(t);
                    } catch {
                        /* searched for as text */
                    }
                }
                return low(t).includes(low(m.words));
            };
            const wrong = SAMPLES.filter((t) => sys.vm.$refs.it.match(t) !== hit(t));
            if (wrong.length) {
                return `"${wrong[0]}" is ${hit(wrong[0]) ? 'not ' : ''}found by "${m.words}"`;
            }
            const on = all(el, '.vs-search-input-toggle').map((b) => b.classList.contains('vs-search-input-toggle-on'));
            if (json(on) !== json([m.exact, m.regex])) {
                return `the switches show ${json(on)}, expected ${json([m.exact, m.regex])}`;
            }
            if (sc.modes && (p.exact !== m.exact || p.regex !== m.regex)) {
                return `the bound modes are ${json([p.exact, p.regex])}, expected ${json([m.exact, m.regex])}`;
            }
            return m.due === null && p.model !== m.words ? `the model is "${p.model}", expected "${m.words}"` : null;
        },
    },
};

export default {
    id: 'P31',
    world: 'ui',
    method: 'every sequence, up to the depth, of what a user and the page can do to a fold, a copied text, a link, an image and a search field on the real components, with clipboard and image loads settled in every way, compared after every step with the state last asked for',
    assumptions: ['the text of an element is its text content', 'changing the source of an image cancels its former load, as browsers do'],

    scenarios(tier) {
        return SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
    },

    async start(env, sc) {
        const lib = env.instance();
        const sys = { env, sc, lib, heard: [], expected: [], p: env.vue.reactive({}) };
        const render = KINDS[sc.kind].start(sys);
        const app = env.mount({ render() { return render(); } }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        sys.el = app.el;
        sys.vm = app.vm;
        await env.flush();
        return sys;
    },

    enabled: (sys) => KINDS[sys.sc.kind].enabled(sys),

    async step(sys, action) {
        sys.heard.length = 0;
        sys.expected = [];
        const at = action.indexOf(' ');
        await (at < 0 ? KINDS[sys.sc.kind].step(sys, action) : KINDS[sys.sc.kind].step(sys, action.slice(0, at), action.slice(at + 1)));
    },

    verdict(sys) {
        if (sys.complaint) {
            return sys.complaint;
        }
        if (sys.env.errors.length) {
            return 'an error was thrown: ' + sys.env.errors[0];
        }
        const bad = KINDS[sys.sc.kind].verdict(sys);
        if (bad) {
            return bad;
        }
        return json([...sys.heard].sort()) === json([...sys.expected].sort()) ? null : `reported ${json(sys.heard)}, expected ${json(sys.expected)}`;
    },

    state: (sys) => json([sys.m, sys.writes?.map((d) => [d.text, d.settled])]),
};
