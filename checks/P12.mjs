// The answer to a request does not depend on what else was asked, in which order GitHub answered,
// or on failures met earlier.
import { GitHub } from '../lib/mcp-env.mjs';
import { repo, request, labels, near, content } from '../lib/mcp-world.mjs';
import { json } from '../lib/kit.mjs';

const fresh = new Map();
async function alone(world, label) {
    if (!fresh.has(label)) {
        const github = new GitHub(repo);
        const server = await world.server({ github });
        const { method, params } = request(label);
        const answer = content(await server.request(method, params));
        fresh.set(label, { text: json(answer), answer, fetched: github.log.slice() });
    }
    return fresh.get(label);
}

async function ask(server, label) {
    const { method, params } = request(label);
    return content(await server.request(method, params));
}

const cut = (s) => (s.length > 500 ? s.slice(0, 500) + '…' : s);
function difference(label, got, want, when) {
    const a = json(got);
    if (a === want.text) {
        return null;
    }
    let i = 0;
    while (a[i] === want.text[i]) {
        i++;
    }
    const from = Math.max(0, i - 60);
    return `${label} ${when}: …${cut(a.slice(from, from + 200))} instead of …${cut(want.text.slice(from, from + 200))}`;
}

// a request that met a failure owns up to it; the setup example and a source listing may be left out
const EXCUSED = { 'packages/vlossom/README.md': ['fullExample'], vue: ['source'] };
function honest(label, got, want, key) {
    if (json(got) === want.text) {
        return null;
    }
    if (got.contents) {
        got = got.contents[0].text;
    }
    const says = got.status === 'error' || got.toolError || got.rpcError || got.missing;
    if (says) {
        const message = `${got.message ?? ''}${got.error ?? ''}${json(got.recommendations ?? '')}${json(got.toolError ?? '')}${got.rpcError ?? ''}`;
        if (/was not found|does not exist|Unknown Vlossom/i.test(message) || (got.issues ?? []).length || (got.unknownComponents ?? []).length) {
            return `${label} reports a failed read of ${key} as missing data: ${cut(json(got))}`;
        }
        return null;
    }
    const excused = key.endsWith('.vue') ? EXCUSED.vue : EXCUSED[key.slice(key.indexOf(':') + 1)];
    if (excused && got.reference) {
        const [field] = excused;
        const same = json({ ...got, reference: { ...got.reference, [field]: 0 } }) === json({ ...want.answer, reference: { ...want.answer.reference, [field]: 0 } });
        if (same) {
            return null;
        }
    }
    return `${label} does not report the failed read of ${key}: ${cut(json(got))}`;
}

const ALL = labels();
const SOME = [
    'findButton@none', 'findAny@tag', 'coverage@range', 'findToken@v', 'refButton@tag', 'refInput@range', 'refLower@none', 'refSource@v', 'refNew@tag',
    'refDirective@range', 'refComposable@tag', 'refOption@v', 'refRelease@none', 'refNew@absent', 'usage@range', 'styleSet@tag', 'setup@none',
    'checkSfc@tag', 'checkStyleSet@range', 'components', 'component', 'tokens',
];

export default {
    id: 'P12',
    world: 'mcp',
    method: 'the real server program is run against a simulated GitHub; every pair (and triple) of requests, every single failing read, and every order in which GitHub answers concurrent requests is executed and each answer compared with the answer of a server that was asked nothing else',
    assumptions: ['GitHub serves the same contents throughout an execution', 'every component directory has a README'],
    scenarios(tier) {
        const deep = tier === 'thorough';
        const out = [
            { name: 'pairs', enumerate: true, first: deep ? ALL : labels(undefined, ['none', 'tag', 'range', 'absent']), then: deep ? ALL : labels(undefined, ['none', 'tag', 'range']) },
            { name: 'triples', enumerate: true, triples: deep ? SOME : SOME.filter((_, i) => i % 2 === 0) },
            // the same and different questions about versions whose names differ in one part
            { name: 'similar versions', enumerate: true, kinds: deep ? undefined : ['findButton', 'findNew', 'findDirective', 'refButton', 'refNew', 'refSource', 'refDirectives', 'refComposables', 'refToken', 'refOption', 'usage', 'checkSfc'] },
            { name: 'failures', enumerate: true, failing: deep ? ALL : labels(undefined, ['none', 'range', 'absent']), faults: deep ? [500, 403, 429, 'network'] : [500, 'network'] },
        ];
        const concurrent = [
            ['refButton@tag', 'refButton@range'],
            ['refButton@none', 'refInput@none'],
            ['refButton@tag', 'refButton@none'],
            ['refLower@none', 'components'],
            ['findButton@tag', 'coverage@tag'],
            ['refDirective@v', 'findDirective@v'],
            ['refComposable@tag', 'refComposables@none'],
            ['refToken@none', 'tokens'],
            ['refOption@tag', 'refOption@range'],
            ['refRelease@none', 'findRelease@none'],
            ['refSource@v', 'refSource@none'],
            ['usage@tag', 'checkSfc@range'],
            ['refNew@absent', 'refNew@tag'],
            ['styleSet@plain', 'checkStyleSet@range'],
        ];
        for (const pair of concurrent) {
            out.push({ name: `together ${pair.join(' ')}`, pair, depth: deep ? 9 : pair.includes('components') ? 5 : 6, failing: 1, split: 2 });
        }
        return out;
    },

    async enumerator(world, scenario) {
        if (scenario.name === 'pairs') {
            const total = scenario.first.length * scenario.then.length;
            return {
                total,
                evaluate: async (i) => {
                    const a = scenario.first[Math.floor(i / scenario.then.length)];
                    const b = scenario.then[i % scenario.then.length];
                    return this.sequence(world, [a, b]);
                },
            };
        }
        if (scenario.name === 'similar versions') {
            const set = labels(scenario.kinds, near, []);
            const cases = set.flatMap((a) => set.filter((b) => a.split('@')[1] !== b.split('@')[1]).map((b) => [a, b]));
            return { total: cases.length, evaluate: (i) => this.sequence(world, cases[i]) };
        }
        if (scenario.name === 'triples') {
            const set = scenario.triples;
            const n = set.length;
            return { total: n ** 3, evaluate: (i) => this.sequence(world, [set[Math.floor(i / n / n)], set[Math.floor(i / n) % n], set[i % n]]) };
        }
        // failures
        const cases = [];
        for (const label of scenario.failing) {
            const { fetched } = await alone(world, label);
            for (let k = 0; k < fetched.length; k++) {
                for (const fault of scenario.faults) {
                    cases.push({ label, k, fault, back: (k + label.length) % 2 === 0 });
                }
            }
        }
        return { total: cases.length, evaluate: (i) => this.failure(world, cases[i], scenario) };
    },

    async sequence(world, list) {
        const server = await world.server({ github: new GitHub(repo) });
        let violation = null;
        for (const [k, label] of list.entries()) {
            const got = await ask(server, label);
            violation ??= difference(label, got, await alone(world, label), k ? `after ${list.slice(0, k).join(', ')}` : 'asked first');
        }
        return { state: list.join(), sample: list, outcome: list[list.length - 1], transitions: list.length, violation };
    },

    async failure(world, { label, k, fault, back }, scenario) {
        const github = new GitHub(repo);
        const server = await world.server({ github });
        let n = 0;
        let key = '';
        github.fault = (what) => {
            if (n++ === k) {
                key = what;
                return fault;
            }
            return undefined;
        };
        const got = await ask(server, label);
        github.fault = null;
        let violation = honest(label, got, await alone(world, label), key);
        // GitHub is well again: everything is answered as if nothing had happened
        const rest = [label, ...SOME.filter((l) => l !== label)];
        if (back) {
            rest.reverse();
        }
        for (const l of rest) {
            if (violation) {
                break;
            }
            violation = difference(l, await ask(server, l), await alone(world, l), `after ${label} met failure ${fault} reading ${key}`);
        }
        return { state: `${label}#${k}:${fault}`, sample: { label, read: key, fault }, outcome: got.status ?? 'resource', transitions: rest.length + 1, violation };
    },

    // two requests at once, GitHub answering in every order
    async start(world, scenario) {
        const expected = [];
        for (const label of scenario.pair) {
            expected.push(await alone(world, label));
        }
        for (const label of SOME) {
            await alone(world, label);
        }
        const github = new GitHub(repo, { manual: true });
        const server = await world.server({ github });
        const sys = { world, scenario, github, server, expected, failed: [], ids: [], budget: scenario.failing };
        sys.ids = scenario.pair.map((label) => {
            const { method, params } = request(label);
            return server.ask(method, params);
        });
        await server.settle();
        return sys;
    },

    enabled(sys) {
        const keys = sys.github.waiting();
        const out = keys.map((k) => `serve ${k}`);
        if (sys.budget > 0) {
            out.push(...keys.map((k) => `fail ${k}`));
        }
        return out;
    },

    async step(sys, action) {
        const [what, key] = [action.slice(0, 5).trim(), action.slice(5).trim()];
        if (what === 'fail') {
            sys.budget--;
            sys.failed.push(key);
            sys.github.settle(key, 500);
        } else {
            sys.github.settle(key);
        }
        await sys.server.settle();
    },

    verdict(sys) {
        for (const [i, id] of sys.ids.entries()) {
            const message = sys.server.answer(id);
            if (!message) {
                continue;
            }
            const label = sys.scenario.pair[i];
            const got = content(message);
            const wrong = sys.failed.length
                ? honest(label, got, sys.expected[i], sys.failed[0])
                : difference(label, got, sys.expected[i], `with ${sys.scenario.pair[1 - i]} at the same time`);
            if (wrong) {
                return wrong;
            }
        }
        return null;
    },

    async finish(sys) {
        for (let n = 0; n < 200 && sys.github.pending.length; n++) {
            sys.github.settle(sys.github.pending[0].key);
            await sys.server.settle();
        }
        const v = this.verdict(sys);
        if (v) {
            return v;
        }
        const open = sys.ids.findIndex((id) => !sys.server.answer(id));
        if (open >= 0) {
            return `${sys.scenario.pair[open]} is never answered`;
        }
        sys.github.manual = false;
        for (const label of [...sys.scenario.pair, ...(sys.failed.length ? [] : SOME.slice(0, 3))]) {
            const wrong = difference(label, await ask(sys.server, label), await alone(sys.world, label), `after ${sys.scenario.pair.join(' and ')} at once${sys.failed.length ? `, failing ${sys.failed[0]}` : ''}`);
            if (wrong) {
                return wrong;
            }
        }
        return null;
    },

    state(sys) {
        return json([sys.github.waiting(), sys.failed, sys.ids.map((id) => !!sys.server.answer(id)), sys.github.log.length]);
    },
};
