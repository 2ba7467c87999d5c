// One exploration process. Receives {type:'init'} then a stream of jobs.
import { pathToFileURL } from 'node:url';
import fs from 'node:fs';
import path from 'node:path';
import { VERIF } from './paths.mjs';
import { execute, exploreSubtree, prefixes, hash, position } from './explore.mjs';

const realNow = Date.now.bind(Date);
let check;
let world;

function track(file) {
    const fd = fs.openSync(file, 'w');
    let n = 0;
    position.note = (scenario, actions) => {
        const text = JSON.stringify({ n: ++n, scenario, actions });
        fs.writeSync(fd, text + '\n', 0);
    };
}

async function init(msg) {
    track(msg.position);
    check = (await import(pathToFileURL(path.join(VERIF, 'checks', msg.check + '.mjs')).href)).default;
    const mod = await import(pathToFileURL(path.join(VERIF, 'lib', check.world + '-env.mjs')).href);
    world = mod.env;
    await world.load(msg.bundle, msg.extra);
    await world.reset();
}

async function evaluate(ctx, i) {
    try {
        return await ctx.evaluate(i);
    } catch (e) {
        const what = `the case could not be carried out: ${String((e && e.stack) || e).split('\n').slice(0, 4).join(' | ')}`;
        return { state: what, violation: what };
    }
}

async function enumerator(scenario) {
    position.note(scenario, ['0']);
    try {
        return await check.enumerator(world, scenario);
    } catch (e) {
        return {
            total: 1,
            evaluate() {
                throw e;
            },
        };
    }
}

async function enumerate(msg) {
    const { scenario, from, to, stride } = msg;
    const out = { executions: 0, transitions: 0, states: new Set(), outcomes: new Set(), samples: [], violation: null };
    const ctx = await enumerator(scenario);
    for (let i = from; i < to; i += stride) {
        position.note(scenario, [String(i)]);
        const r = await evaluate(ctx, i);
        out.executions++;
        out.transitions += r.transitions ?? 1;
        out.states.add(hash(r.state));
        if (r.outcome !== undefined) {
            out.outcomes.add(hash(String(r.outcome)));
        }
        if (out.samples.length < 2) {
            out.samples.push({ scenario: scenario.name, case: r.sample ?? r.state });
        }
        if (r.violation) {
            out.violation = { scenario, actions: [String(i)], message: r.violation, case: r.sample ?? r.state };
            break;
        }
    }
    await world.reset();
    return out;
}

async function handle(msg) {
    switch (msg.type) {
        case 'init':
            await init(msg);
            return { ok: true };
        case 'prefixes':
            return prefixes(check, world, msg.scenario, msg.len);
        case 'size': {
            const ctx = await enumerator(msg.scenario);
            await world.reset();
            return { total: ctx.total };
        }
        case 'enumerate':
            return enumerate(msg);
        case 'subtree':
            return exploreSubtree(check, world, msg.scenario, msg.root, msg.scenario.depth, msg.opts);
        case 'replay': {
            if (msg.scenario.enumerate) {
                const ctx = await enumerator(msg.scenario);
                position.note(msg.scenario, msg.actions);
                const r = await evaluate(ctx, Number(msg.actions[0]));
                await world.reset();
                return { violation: r.violation ? { message: r.violation } : null, trace: [JSON.stringify(r.sample ?? r.state)] };
            }
            return execute(check, world, msg.scenario, msg.actions, msg.depth ?? msg.actions.length, { everyStep: true });
        }
        default:
            throw new Error('unknown job ' + msg.type);
    }
}

process.on('message', async (msg) => {
    const t0 = realNow();
    try {
        const result = await handle(msg);
        const plain = JSON.parse(JSON.stringify(result, (k, v) => (v instanceof Set ? [...v] : v)));
        process.send({ id: msg.id, result: plain, ms: realNow() - t0 });
    } catch (e) {
        process.send({ id: msg.id, error: String((e && e.stack) || e) });
    }
});
