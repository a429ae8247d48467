// SPDX-License-Identifier: MIT
pragma solidity ^0.8.25;

import "../src/ZKNOX_falcon_deploy.sol";
import "../src/ZKNOX_NTT.sol";

contract VpDeploy {
    function tables(bytes32 salt) external returns (bytes memory x, bytes memory y) {
        (address a, address b) = Deploy(salt);
        x = a.code;
        y = b.code;
    }

    function polynomial(bytes32 salt, uint256[] memory p) external returns (bytes memory) {
        return DeployPolynomial(salt, p).code;
    }

    function again(bytes32 salt, uint256[] memory p) external returns (bool) {
        DeployPolynomial(salt, p);
        DeployPolynomial(salt, p);
        return true;
    }

    function chain(uint256[] memory psi, uint256[] memory psiinv, uint256[] memory a, uint256[] memory b)
        external
        returns (uint256[] memory)
    {
        address t = DeployPolynomial(bytes32(uint256(1)), psi);
        address u = DeployPolynomial(bytes32(uint256(2)), psiinv);
        ZKNOX_NTT c = new ZKNOX_NTT(t, u, 12289, 12265);
        return c.ZKNOX_NTT_MUL(a, b);
    }
}
