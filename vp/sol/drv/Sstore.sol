// SPDX-License-Identifier: MIT
pragma solidity ^0.8.25;

import {SSTORE2} from "sstore2/SSTORE2.sol";
import {Bytecode} from "sstore2/utils/Bytecode.sol";

contract VpSstore {
    function write(bytes memory d) external returns (address) {
        return SSTORE2.write(d);
    }

    function code(address a) external view returns (bytes memory) {
        return a.code;
    }

    function read(address a) external view returns (bytes memory) {
        return SSTORE2.read(a);
    }

    function read1(address a, uint256 s) external view returns (bytes memory) {
        return SSTORE2.read(a, s);
    }

    function read2(address a, uint256 s, uint256 e) external view returns (bytes memory) {
        return SSTORE2.read(a, s, e);
    }

    // several values alive at once: no two share memory
    function both(address a, address b, uint256 s, uint256 e)
        external
        view
        returns (bytes memory u, bytes memory v, bytes memory w, bytes memory x)
    {
        u = SSTORE2.read(a);
        v = SSTORE2.read(b);
        w = SSTORE2.read(a, s, e);
        x = new bytes(100);
        for (uint256 i = 0; i < 100; i++) {
            x[i] = bytes1(uint8(i + 1));
        }
    }

    function at(address a, uint256 s, uint256 e) external view returns (bytes memory) {
        return Bytecode.codeAt(a, s, e);
    }

    function size(address a) external view returns (uint256) {
        return Bytecode.codeSize(a);
    }

    function init(bytes memory c) external pure returns (bytes memory) {
        return Bytecode.creationCodeFor(c);
    }
}
