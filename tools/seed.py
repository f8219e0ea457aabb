#!/usr/bin/env python3
"""seed.py <id> <property> : makes /verif/seeded/<id> from /tmp/seed/<id>/{body.rs,meta.json} and the diff of /tmp/wt (a scratch copy of /repo)."""
