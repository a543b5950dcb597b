"""One campaign in a fresh interpreter: worker.py JOB.json (see c01)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def main():
    job = json.load(open(sys.argv[1]))
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from sim import campaign
    v = campaign.build(job['d'])
    campaign.setup(v, job['d'], None)
    campaign.seed(job['d'])
    campaign.run(v, job['d'], job['folder'])


main()
