// SPDX-License-Identifier: MIT
pragma solidity ^0.8.25;

import "../src/ZKNOX_shake.sol";

contract VpShake {
    function digest(bytes[] memory parts, uint256 outlen) external pure returns (bytes memory) {
        CtxShake memory ctx = shakeInit();
        for (uint256 i = 0; i < parts.length; i++) {
            ctx = shakeUpdate(ctx, parts[i]);
        }
        return shakeDigest(ctx, outlen);
    }

    function squeeze(bytes[] memory parts, uint256[] memory outs) external pure returns (bytes memory res) {
        CtxShake memory ctx;
        for (uint256 i = 0; i < parts.length; i++) {
            ctx = shakeUpdate(ctx, parts[i]);
        }
        ctx = shakePad(ctx);
        bytes memory t;
        for (uint256 i = 0; i < outs.length; i++) {
            (ctx, t) = shakeSqueeze(ctx, outs[i]);
            res = abi.encodePacked(res, t);
        }
    }

    function twice(bytes memory a, bytes memory b, uint256 la, uint256 lb) external pure returns (bytes memory x, bytes memory y) {
        CtxShake memory c1 = shakeInit();
        CtxShake memory c2 = shakeInit();
        c1 = shakeUpdate(c1, a);
        c2 = shakeUpdate(c2, b);
        x = shakeDigest(c1, la);
        y = shakeDigest(c2, lb);
    }

    function perm(uint64[25] memory s) external pure returns (uint64[25] memory) {
        return f1600(s);
    }
}
