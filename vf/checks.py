from . import checks_lve, checks_tool, checks_e2e, checks_cli, checks_crypt, checks_pack, checks_key, checks_disc, checks_hold, checks_thread, checks_host
ALL = {}
for m in (checks_lve, checks_tool, checks_e2e, checks_cli, checks_crypt, checks_pack, checks_key, checks_disc, checks_hold, checks_thread, checks_host):
    ALL.update(m.ALL)
