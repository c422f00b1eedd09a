"""all checks that are not in c_files"""
import c_cache
import c_cli
import c_install
import c_life
import c_nxdl
import c_tree

CHECKS = {}
CHECKS.update(c_tree.CHECKS)
CHECKS.update(c_life.CHECKS)
CHECKS.update(c_cache.CHECKS)
CHECKS.update(c_install.CHECKS)
CHECKS.update(c_nxdl.CHECKS)
CHECKS.update(c_cli.CHECKS)
