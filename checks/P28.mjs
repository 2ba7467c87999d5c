// Content shown in overlays lives in the application: what it finds there, and where its errors go.
import { json, product } from '../lib/kit.mjs';

const PLACES = ['modal', 'modal of a vnode', 'alert', 'confirm', 'prompt', 'toast', 'vs-modal'];
const VALUES = { none: undefined, one: 'one', two: 'two', zero: 0 };

const SCENARIOS = (deep) => [
    ...PLACES.map((place) => ({ name: `content of a ${place}`, places: [place], acts: ['component', 'directive', 'provide', 'global=one', 'global=zero', 'global=none', 'handler=one', 'handler=two', 'handler=none'], depth: deep ? 5 : ['modal', 'toast', 'vs-modal'].includes(place) ? 4 : 3 })),
    { name: 'a modal opened by what is in a modal', places: ['modal', 'inner'], acts: ['component', 'directive', 'global=one', 'handler=two'], depth: deep ? 6 : 5 },
    { name: 'several at once', places: ['modal', 'toast', 'alert'], acts: ['component', 'provide', 'global=two', 'handler=one'], depth: deep ? 6 : 5 },
    { name: 'a second application', places: ['modal', 'toast'], second: true, acts: ['second', 'component', 'global=one', 'handler=one'], depth: deep ? 6 : 5 },
];

// what is installed
const GIVEN = { VsButton: 'VsButton', VsChip: 'VsChip', MyButton: 'VsButton', 'my-thing': 'own', nothing: null, text: 'text', flag: false };
const KINDS = {
    'what is installed': {
        cases: () => product(...Object.keys(GIVEN).map(() => [false, true])),
        async run(env, chosen) {
            const { createApp, h } = env.vue;
            const lib = env.instance();
            const own = { render: () => h('i', 'own') };
            const names = Object.keys(GIVEN).filter((name, i) => chosen[i]);
            const made = (name) => ({ own, VsButton: lib.VsButton, VsChip: lib.VsChip })[GIVEN[name]];
            const components = Object.fromEntries(names.map((name) => [name, made(name) ?? GIVEN[name]]));
            const app = createApp({ render: () => null });
            app.component('before', own);
            app.use(lib.createVlossom({ components }));
            for (const name of [...Object.keys(GIVEN), ...Object.keys(lib.VlossomComponents), 'before']) {
                const want = name === 'before' ? own : names.includes(name) ? made(name) : undefined;
                if (app.component(name) !== want) {
                    return `${name} is ${want ? 'not what was given' : 'registered'}`;
                }
            }
            const warned = env.console.filter(([kind]) => kind === 'warn').length;
            const bad = names.filter((name) => !made(name)).length;
            if (warned !== bad) {
                return `${warned} warnings for ${bad} components that are none`;
            }
            return null;
        },
    },
    'when it can be used': {
        cases: () => product(['before', 'created', 'installed', 'created twice', 'installed twice', 'installed in two applications'], ['toggle', 'overlay', 'throw']),
        async run(env, [when, use]) {
            const { createApp, h } = env.vue;
            const lib = env.instance();
            const made = [];
            const apps = [];
            const create = () => made.push(lib.createVlossom({ components: lib.VlossomComponents }));
            const install = () => {
                const app = createApp({ render: () => null });
                app.use(made.at(-1));
                apps.push(app);
            };
            const steps = { before: [], created: [create], installed: [create, install], 'created twice': [create, create, install], 'installed twice': [create, install, create, install], 'installed in two applications': [create, install, install] }[when];
            if (use === 'throw') {
                // asked for before every step but the first
                for (const [i, step] of [...steps, () => {}].entries()) {
                    let failed = null;
                    try {
                        lib.useVlossom();
                    } catch (e) {
                        failed = e;
                    }
                    if (i === 0 ? !(failed instanceof Error) : failed) {
                        return i === 0 ? 'can be used before it is created' : `cannot be used after ${i} steps: ${failed}`;
                    }
                    step();
                }
                return null;
            }
            steps.forEach((step) => step());
            const hosts = document.querySelectorAll('#vs-overlay-container').length;
            if (hosts !== (apps.length ? 1 : 0)) {
                return `${hosts} places for overlays`;
            }
            if (!made.length) {
                return null;
            }
            if (apps.length && apps.at(-1).config.globalProperties.$vs !== lib.useVlossom()) {
                return '$vs is not what useVlossom gives';
            }
            if (use === 'overlay' && apps.length) {
                lib.useVlossom().modal.open({ render: () => h('b', { class: 'shown' }, 'x') });
                await env.flush();
                await env.advance(1000);
                const n = document.querySelectorAll('.shown').length;
                return n === 1 ? null : `a modal is shown ${n} times`;
            }
            if (use === 'toggle') {
                const before = lib.useVlossom().theme;
                lib.useVlossom().toggleTheme();
                return lib.useVlossom().theme === before ? 'the theme cannot be toggled' : null;
            }
            return null;
        },
    },
};

export default {
    id: 'P28',
    world: 'ui',
    method: 'every sequence, up to the depth, of opening overlays with content of the application and of registering components and directives, providing values, setting and removing global properties and replacing the error handler of the application, before and after; every set of given components and every order of creating and installing',
    assumptions: [],

    scenarios(tier) {
        return [...SCENARIOS(tier === 'thorough'), ...Object.keys(KINDS).map((kind) => ({ name: kind, kind, enumerate: true }))];
    },

    enumerator(env, sc) {
        const { cases, run } = KINDS[sc.kind];
        const list = cases();
        return {
            total: list.length,
            async evaluate(i) {
                await env.reset();
                const wrong = await run(env, list[i]);
                return { state: json(list[i]), sample: json(list[i]), outcome: wrong ? 'wrong' : json(list[i]), transitions: 1, violation: wrong && `${json(list[i])} ${wrong}` };
            },
        };
    },

    async start(env, sc) {
        const vue = env.vue;
        const { h, reactive, resolveComponent, resolveDirective, withDirectives, inject, getCurrentInstance } = vue;
        const lib = env.instance();
        const plugin = lib.createVlossom({ components: lib.VlossomComponents });
        const sys = { plugin, env, sc, heard: { one: [], two: [], first: [] } };
        sys.m = { component: 0, directive: 0, provide: 0, global: 'none', handler: 'first', open: {}, installed: 1 };
        const p = (sys.p = reactive({ shown: false, turn: 0 }));
        // what stands in the application itself and in every overlay: it shows what it finds
        const Probe = {
            props: ['say'],
            setup(props) {
                const provided = inject('thing', 'nothing');
                const early = inject('early', 'nothing');
                const here = getCurrentInstance();
                // the directives on an element stay those it was made with
                const marks = [[resolveDirective('app-mark')], [resolveDirective('later'), 'on']].filter(([mark]) => mark);
                return { marks, provided, early, globals: () => here.appContext.config.globalProperties };
            },
            render() {
                p.turn;
                const Thing = resolveComponent('AppThing');
                const found = {
                    say: this.say ?? null,
                    component: typeof Thing !== 'string',
                    early: this.early,
                    provided: this.provided,
                    g: this.$g === undefined ? 'none' : this.$g,
                    listed: Object.keys(this.globals()).includes('$g'),
                    known: '$g' in this,
                    fixed: this.$fixed,
                    vs: this.$vs === lib.useVlossom(),
                    library: resolveComponent('VsButton') === lib.VsButton,
                    sum: typeof this.$sum === 'function' ? this.$sum(1) : null,
                };
                const body = h('div', { class: 'probe', 'data-found': json(found) }, [
                    typeof Thing === 'string' ? null : h(Thing),
                    h('button', { class: 'fail', onClick: () => { throw new Error('by ' + (this.say ?? 'application')); } }),
                    h('button', { class: 'inner', onClick: () => this.$vs.modal.open(Probe, { componentProps: { say: 'inner' } }) }),
                ]);
                return this.marks.length ? withDirectives(body, this.marks) : body;
            },
        };
        sys.Probe = Probe;
        sys.app = await env.mount(
            {
                render: () =>
                    h('main', [
                        h('section', { class: 'place-application' }, [h(Probe, { say: 'application' })]),
                        h(lib.VsModal, { modelValue: p.shown, 'onUpdate:modelValue': (v) => (p.shown = v) }, { default: () => h(Probe, { say: 'vs-modal' }) }),
                    ]),
            },
            {
                plugins: [
                    plugin,
                    {
                        install(app) {
                            app.provide('early', 'provided');
                            app.directive('app-mark', { mounted: (el) => el.setAttribute('data-mark', 'm') });
                            app.config.globalProperties.$fixed = 'fixed';
                            app.config.globalProperties.$sum = function (n) {
                                return n + (this ? 1 : 0);
                            };
                            sys.vueApp = app;
                        },
                    },
                ],
            },
        );
        sys.vueApp.config.errorHandler = (e) => sys.heard.first.push(String(e.message));
        sys.vs = lib.useVlossom();
        return sys;
    },

    enabled(sys) {
        const { m, sc } = sys;
        return [
            ...sc.places.filter((place) => !m.open[place] && (place !== 'inner' || m.open.modal)).map((place) => `open ${place}`),
            ...sc.acts.filter((a) => {
                const [key, value] = a.split('=');
                return value ? m[key] !== value : key === 'second' ? m.installed < 2 : !m[key];
            }),
        ];
    },

    async step(sys, action) {
        const { env, m, vueApp, Probe, vs, p } = sys;
        const { h } = env.vue;
        const [verb, ...rest] = action.split(' ');
        if (verb === 'open') {
            const place = rest.join(' ');
            const options = { componentProps: { say: place } };
            // what the application had when the content was made
            m.open[place] = { provide: m.provide, directive: m.directive };
            await env.act(() => {
                if (place === 'modal') vs.modal.open(Probe, options);
                if (place === 'modal of a vnode') vs.modal.open(h(Probe, { say: place }), {});
                if (place === 'alert') vs.alert.open(Probe, options);
                if (place === 'confirm') vs.confirm.open(Probe, options);
                if (place === 'prompt') vs.prompt.open(Probe, options);
                if (place === 'toast') vs.toast.show({ render: () => h(Probe, { say: 'toast' }) }, { timeout: 1e9 });
                if (place === 'vs-modal') p.shown = true;
                if (place === 'inner') probe('modal').querySelector('button.inner').click();
            });
        } else {
            const [key, value] = action.split('=');
            const config = vueApp.config;
            m[key] = value ?? 1;
            if (key === 'component') vueApp.component('AppThing', { render: () => h('em', 'app thing') });
            if (key === 'directive') vueApp.directive('later', { mounted: (el, b) => el.setAttribute('data-later', b.value) });
            if (key === 'provide') vueApp.provide('thing', 'something');
            if (key === 'global') value === 'none' ? delete config.globalProperties.$g : (config.globalProperties.$g = VALUES[value]);
            if (key === 'handler') config.errorHandler = value === 'none' ? undefined : (e) => sys.heard[value].push(String(e.message));
            if (key === 'second') {
                m.installed = 2;
                const app = env.vue.createApp({ render: () => null });
                app.config.globalProperties.$g = 'of another';
                app.provide('thing', 'of another');
                app.component('AppThing', { render: () => h('em', 'of another') });
                app.config.errorHandler = (e) => sys.heard.first.push('another ' + e.message);
                app.use(sys.plugin);
            }
        }
        await env.advance(1000);
        // everything shown is drawn anew
        await env.act(() => (p.turn += 1));
    },

    async verdict(sys) {
        const { env, m } = sys;
        if (env.errors.length) {
            return `error: ${env.errors[0]}`;
        }
        const hosts = document.querySelectorAll('#vs-overlay-container').length;
        if (hosts !== 1) {
            return `${hosts} places for overlays`;
        }
        for (const place of ['application', ...Object.keys(m.open)]) {
            const el = probe(place);
            if (!el) {
                return `the content of the ${place} is not shown`;
            }
            const found = JSON.parse(el.getAttribute('data-found'));
            const made = m.open[place] ?? { provide: 0, directive: 0 };
            const value = m.global === 'none' ? 'none' : VALUES[m.global];
            const want = { say: place, component: !!m.component, early: 'provided', provided: made.provide ? 'something' : 'nothing', g: value, listed: m.global !== 'none', known: m.global !== 'none', fixed: 'fixed', vs: true, library: true, sum: 2 };
            if (json(found) !== json(want)) {
                return `in the ${place}: found ${json(found)}, expected ${json(want)}`;
            }
            if (!!el.querySelector('em') !== !!m.component || (m.component && el.querySelector('em').textContent !== 'app thing')) {
                return `in the ${place}: the application's component ${m.component ? 'is not drawn' : 'is drawn'}`;
            }
            if (el.getAttribute('data-mark') !== 'm' || (el.getAttribute('data-later') === 'on') !== !!made.directive) {
                return `in the ${place}: a directive of the application does nothing`;
            }
            for (const key in sys.heard) sys.heard[key].length = 0;
            if (m.handler !== 'none') {
                await env.act(() => el.querySelector('button.fail').click());
                const wanted = { one: [], two: [], first: [] };
                wanted[m.handler] = ['by ' + place];
                if (json(sys.heard) !== json(wanted)) {
                    return `in the ${place}: an error was heard as ${json(sys.heard)}, expected ${json(wanted)}`;
                }
            }
        }
        return null;
    },

    state(sys) {
        return json(sys.m);
    },
};

function probe(place) {
    return [...document.querySelectorAll('.probe')].find((el) => JSON.parse(el.getAttribute('data-found')).say === place);
}
