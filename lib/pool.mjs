import { fork } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { VERIF } from './paths.mjs';

// A step that has not ended after this long never will: steps take milliseconds.
const PATIENCE = 60000;

export class Stuck extends Error {
    constructor(what, at) {
        super(what);
        this.what = what;
        this.at = at;
    }
}

export class Pool {
    constructor(scratch, size = Math.max(1, Math.min(8, os.cpus().length))) {
        this.scratch = scratch;
        this.size = size;
        this.workers = [];
        this.queue = [];
        this.nextId = 1;
        this.waiting = new Map();
    }

    async start(initMsg) {
        const execArgv = ['--max-old-space-size=2500'];
        for (let i = 0; i < this.size; i++) {
            const child = fork(path.join(VERIF, 'lib/worker.mjs'), [], {
                execArgv,
                env: { ...process.env, NODE_ENV: 'production', TZ: 'UTC' },
                stdio: ['ignore', 'ignore', 'inherit', 'ipc'],
            });
            const w = { child, busy: null, position: path.join(this.scratch, `position-${child.pid}`), seen: '', since: 0 };
            child.on('message', (m) => this.done(w, m));
            child.on('exit', (code, signal) => {
                if (!this.closing) {
                    const job = w.busy;
                    w.dead = true;
                    job?.reject(new Stuck(w.stuck ? `no step forward in ${PATIENCE / 1000} s: the system does not come to rest` : `the system ended the process (${code ?? signal})`, this.where(w)));
                }
            });
            this.workers.push(w);
        }
        await Promise.all(this.workers.map((w) => this.send(w, { type: 'init', position: w.position, ...initMsg })));
        this.timer = setInterval(() => this.watch(), 2000);
        this.timer.unref();
    }

    read(w) {
        try {
            return fs.readFileSync(w.position, 'utf8').split('\n')[0];
        } catch {
            return '';
        }
    }

    where(w) {
        try {
            return JSON.parse(this.read(w));
        } catch {
            return null;
        }
    }

    watch() {
        for (const w of this.workers) {
            const now = w.busy && !w.dead ? w.busy.id + this.read(w) : '';
            if (now !== w.seen) {
                w.seen = now;
                w.since = Date.now();
            } else if (now && Date.now() - w.since > PATIENCE) {
                w.stuck = true;
                w.child.kill('SIGKILL');
            }
        }
    }

    send(w, msg) {
        return new Promise((resolve, reject) => {
            const id = this.nextId++;
            w.busy = { id, resolve, reject };
            w.child.send({ ...msg, id });
        });
    }

    done(w, m) {
        const job = w.busy;
        w.busy = null;
        if (m.error) {
            job.reject(new Error(m.error));
        } else {
            job.resolve(m.result);
        }
        this.pump();
    }

    pump() {
        for (const w of this.workers) {
            if (!w.busy && !w.dead && this.queue.length) {
                const { msg, resolve, reject } = this.queue.shift();
                this.send(w, msg).then(resolve, reject);
            }
        }
    }

    run(msg) {
        return new Promise((resolve, reject) => {
            this.queue.push({ msg, resolve, reject });
            this.pump();
        });
    }

    drop() {
        this.queue.length = 0;
    }

    close() {
        this.closing = true;
        clearInterval(this.timer);
        for (const w of this.workers) {
            w.child.kill('SIGKILL');
        }
    }
}
